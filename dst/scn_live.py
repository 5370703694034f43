"""Progress: C20."""

import sqlite3

import corpora
import lib
import model
from env import SimPool, oracle, real_connect
from kernel import this_task
from lib import Run
from scn_edit import setup
from scn_index import check_indexed, gen_index_args, read_back, settle, start_locker
from scn_read import gen_read

ALL = lib.WORKER_KINDS + lib.WORKER_KINDS + lib.DISK_KINDS + ["interrupt", "interrupt", "slow worker", "document error", "lock"] + lib.START_KINDS
BOUND_S = 120
CALL_S = 400    # a call during faults, with the index locked for up to 1000 s


def free(path):
    "Can another program write at once?"
    with oracle():
        con = real_connect(path, isolation_level=None, timeout=0)
        try:
            con.execute("begin immediate")
            con.execute("rollback")
            return None
        except sqlite3.OperationalError as e:
            return str(e)
        finally:
            con.close()


def gen_call(run, o, w, box, s, idx):
    "A call of any sort: (label, function)."
    c = o.weighted([3, 5, 3])
    if c == 0:
        kw = gen_index_args(o, w, allow_dir=False)
        return f"index({kw})", lambda: idx.index(**kw)
    if c == 1:
        op = lib.gen_edit(o, s, weights=(5, 4, 2, 2, 2, 2, 1, 5))
        return str(op), lambda: op.call(idx)
    r = gen_read(o, s)
    return str(r), lambda: r.fn(idx)


def c20(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path, pool, corpus, box, store, idx = setup(run, g, edits=g.draw(3), positions=bool(g.flag(0.4)))
    idx.close()
    n = 1 + g.draw(3)
    own = g.flag(0.3)
    phases = 1 + g.draw(2)
    pools = {}
    wt = run.watch(path)
    turn = [0, 0]   # phase, whose turn
    arrived = []
    in_call = set()

    def client(i):
        name = f"c{i}"
        p = SimPool(1 + w.ch.sub(f"{name}p").draw(3)) if own else pools.setdefault(0, pool)
        my = run.reopen(path, corpus, p)
        for ph in range(phases):
            for j in range(1 + w.ch.sub(f"{name}n{ph}").draw(4)):
                o = w.ch.sub(f"{name}p{ph}o{j}")
                if o.flag(0.15):
                    box.store = corpora.gen_store(o, max_docs=8, min_docs=1, prev=box.store)
                label, fn = gen_call(run, o, w, box, wt.last, my)
                armed = locker = None
                if o.flag(0.5) and not sim.faults and not lockers:
                    kind = o.pick(ALL)
                    if kind == "lock":
                        lockers.append(1)
                        locker = start_locker(run, path, o, now=True, holds=(0.3, 4, 20, 1000))
                    else:
                        armed = lib.arm(run, o, kind, client=this_task())
                if in_call:
                    w.nontrivial = True
                in_call.add(name)
                t0 = sim.now
                ok, r = run.call(label, fn)
                in_call.discard(name)
                if sim.now - t0 > CALL_S * 1e6:
                    run.fail("call waits for ever", f"{label} -> {'ok' if ok else type(r).__name__} after {(sim.now - t0) / 1e6:.0f} s of simulated time")
                if armed is not None:
                    lib.disarm(run)
                if locker is not None:
                    sim.locker_stop = True
                    run.join([locker])
                    lockers.clear()
                run.note(f"{name}: {label} -> {'ok' if ok else type(r).__name__ + ': ' + str(r)[:60]}{' fired ' + armed.kind if armed and armed.fired else ''}; {(sim.now - t0) / 1e6:.1f} s")
                if armed is not None and armed.fired or locker is not None:
                    w.nontrivial = True
                if in_call == set() and ok is False:
                    sim.probes["failed alone"] += 1
                if my.db.in_transaction:
                    run.fail("call leaves a transaction open", f"{label} -> {type(r).__name__ if not ok else 'ok'}")
            # everybody has finished with the faults
            arrived.append(name)
            if len(arrived) == n * (ph + 1):
                lib.disarm(run)
            sim.block(lambda: failed or len(arrived) >= n * (ph + 1) and turn == [ph, i], "phase")
            if failed:
                return
            my, p = calm_calls(run, w, f"{name}f{ph}", path, corpus, box, my, p, wt)
            turn[1] += 1
            if turn[1] == n:
                turn[0], turn[1] = turn[0] + 1, 0
            sim.block(lambda: failed or turn[0] > ph, "phase")
            if failed:
                return
        my.close()

    def body(i):
        try:
            client(i)
        except BaseException:
            failed.append(i)
            raise

    failed = []

    lockers = []
    run.join([run.client(lambda i=i: body(i), f"c{i}") for i in range(n)])
    e = free(path)
    if e:
        run.fail("index stays locked", e)
    wt.close()


def calm_calls(run, w, key, path, corpus, box, my, p, wt):
    "No faults any more, nobody else: everything works, on the same object."
    sim = run.sim
    sim.p_slow = 0
    if p._broken:
        sim.probes["pool replaced"] += 1
        my.close()
        p = SimPool(2)
        my = run.must("Index with a fresh pool", run.index, path, corpus, p)
    e = free(path)
    if e:
        run.fail("index stays locked", f"after every call has finished: {e}")
    o = w.ch.sub(key)
    t0, s0 = sim.now, sim.steps
    n0 = wt.n()
    order = o.draw(3)
    if order == 0:
        kw = gen_index_args(o, w, allow_dir=False)
        run.must("index", my.index, **kw)
        wt.poll("x")
        check_indexed(run, wt.last, box.store, kw["index_positions"], "once faults stopped")
    if wt.last.clusters and order != 1:
        k = sorted(wt.last.clusters)
        op = model.Op("refine_clusters", (), {"iterations": 1})
        run.must(str(op), op.call, my)
        wt.poll("x")
    if wt.last.feats:
        before = wt.last
        op = model.Op("create_cluster_from_features", (sorted(before.feats)[:2],))
        r = run.must(str(op), op.call, my)
        wt.poll("x")
        e = op.check(before, wt.last, r) or model.check_summaries(wt.last)
        if e:
            run.fail("work does not go on once faults stop", e)
    read_back(run, my, wt.last)
    if sim.now - t0 > BOUND_S * 1e6:
        run.fail("work goes on too slowly", f"{(sim.now - t0) / 1e6:.0f} s of simulated time")
    e = free(path)
    if e:
        run.fail("index stays locked", f"after calls without faults: {e}")
    return my, p
