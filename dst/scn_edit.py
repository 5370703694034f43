"""Model edits: C06, C07, C08, C09."""

import os
import shutil
import sqlite3

import corpora
import lib
import model
from env import VFS, SimPool, oracle
from kernel import this_task
from lib import Run
from scn_index import gen_index_args, read_back, settle, start_locker

EDIT_FAULTS = lib.WORKER_KINDS + lib.DISK_KINDS + ["interrupt", "interrupt", "slow worker"]


def setup(run, g, max_docs=8, n_clusters=None, edits=0, positions=False):
    path = run.path("i.db")
    pool = run.pool()
    store = corpora.gen_store(g, max_docs=max_docs, min_docs=2)
    corpus, box = corpora.make_corpus(run.sim, store)
    n = 1 + g.draw(6) if n_clusters is None else n_clusters
    idx = lib.build_base(run, path, run.opg("base"), corpus, pool, positions, n_clusters=n, edits=edits)
    return path, pool, corpus, box, store, idx


def plausible(op, s0, s1):
    "Is s1 what op may have made of s0, whatever it would have returned?"
    rets = [None, *sorted(set(s1.clusters) - set(s0.clusters))]
    if op.name == "merge_clusters" and op.args[0]:
        rets.append(op.args[0][0])
    if op.name == "create_cluster_from_features":
        rets.append(max(s0.clusters, default=0) + 1)
    return any(op.check(s0, s1, r) is None for r in rets)


def late_fault(fired):
    return [a for a in fired if a.kind in lib.DISK_KINDS or a.kind == "interrupt"]


def judge(run, op, s0, s1, n, ok, r, excuse, fired, what=""):
    """One finished edit: s0 and s1 around it, n commits in between."""
    late = late_fault(fired)
    if ok:
        if n > 1:
            run.fail("edit committed in parts", f"{op}: {n} commits{what}")
        if op.raises(s0):
            run.fail("invalid edit accepted", f"{op}{what}")
        e = op.check(s0, s1, r)
        if e:
            run.fail("acknowledged edit differs from its effect", f"{e}{what}")
        e = model.check_summaries(s1)
        if e:
            run.fail("acknowledged edit left stale summaries", f"{op}: {e}{what}")
        return
    if not excuse and not op.raises(s0):
        run.fail("edit raised without a fault", f"{op}: {type(r).__name__}: {r}{what}")
    if s1 == s0:
        return
    if n > 1:
        run.fail("failed edit committed in parts", f"{op}: {n} commits{what}")
    if late and plausible(op, s0, s1) and model.check_summaries(s1) is None:
        run.sim.probes["fault after the commit"] += 1
        return
    run.fail("failed edit has an effect", f"{op} raised {type(r).__name__}: {r}; {s0.diff(s1)}{what}")


def gen_edit_valid(run, g, s):
    return lib.gen_edit(g, s)


def grouped(run, o, wt, use, main):
    """
    Several calls in one transaction of the caller's: each all or nothing within it,
    none seen by anybody else before its end.  (whether a fault fired, the calls)
    """
    s0, n0 = wt.last, wt.n()
    run.must("begin", use.db.execute, "begin")
    cur = lib.inside(use)
    if cur != s0:
        run.fail("object answers from another state", f"in a transaction: {s0.diff(cur)}")
    n_ops = 1 + o.draw(4)
    faulty = o.draw(n_ops) if o.flag(0.4) else None
    hit = False
    done = []
    for i in range(n_ops):
        op = lib.gen_edit(o, cur)
        armed = []
        if i == faulty:
            f = run.opg("fault")
            armed.append(lib.arm(run, f, f.pick(EDIT_FAULTS), client=main))
        ok, r = run.call(str(op), op.call, use)
        lib.disarm(run)
        fired = [a for a in armed if a.fired]
        hit = hit or bool(fired)
        wt.poll("x")
        run.note(f"in a transaction: {op} -> {'returned ' + str(r) if ok else type(r).__name__ + ': ' + str(r)[:80]}" + (f"; fired {[a.kind for a in fired]}" if fired else ""))
        broken = use.pool._broken
        if wt.n() != n0:
            run.fail("edit committed before the end of its transaction", f"{op}: {s0.diff(wt.last)}")
        if not use.db.in_transaction:
            # SQLite gives up the whole transaction after some errors.
            if ok or not late_fault(fired):
                run.fail("transaction lost", f"{op} {'returned' if ok else type(r).__name__ + ': ' + str(r)}")
            run.sim.probes["transaction given up by SQLite"] += 1
            return hit, done
        was, cur = cur, lib.inside(use)
        if ok or cur != was:
            done.append(op)
        judge(run, op, was, cur, 1, ok, r, bool(fired) or broken, fired, " in a transaction")
        if broken:
            break
    if o.flag(0.75):
        run.note("commit")
        run.must("commit", use.db.execute, "commit")
        wt.poll("x")
        if wt.n() > n0 + 1 or wt.last != cur:
            run.fail("transaction not committed as it was", cur.diff(wt.last))
    else:
        run.note("rollback")
        run.must("rollback", use.db.execute, "rollback")
        wt.poll("x")
        if wt.n() != n0 or lib.inside(use) != s0:
            run.fail("transaction not taken back", s0.diff(lib.inside(use)))
    return hit, done


# ---------------------------------------------------------------- C07


def c07(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path, pool, corpus, box, store, idx = setup(run, g, edits=g.draw(3))
    other = run.index(path, None, pool)
    wt = run.watch(path)
    VFS.start_log(w.data)
    acks = []
    doubtful = []
    n_ops = 3 + g.draw(6)
    main = this_task()

    def renew():
        nonlocal pool, idx, other
        if not pool._broken:
            return
        sim.probes["pool replaced"] += 1
        read_back(run, idx, wt.last)
        idx.close()
        other.close()
        pool = SimPool(2)
        idx = run.must("Index", run.index, path, corpus, pool)
        other = run.must("Index", run.index, path, None, pool)

    for i in range(n_ops):
        o = run.opg("op")
        use = idx if not o.flag(0.2) else other
        armed = []
        locker = None
        if o.flag(0.12):
            hit, _ = grouped(run, o, wt, use, main)
            w.nontrivial = w.nontrivial or hit
            acks.append((wt.oplen(), wt.n() - 1))
            settle(run, pool)
            read_back(run, use, wt.last)
            renew()
            continue
        op = lib.gen_edit(o, wt.last)
        if o.flag(0.55):
            f = run.opg("fault")
            if f.flag(0.1):
                locker = start_locker(run, path, f, now=True)
            else:
                armed.append(lib.arm(run, f, f.pick(EDIT_FAULTS), client=main))
        s0, n0 = wt.last, wt.n()
        start = wt.oplen()
        ok, r = run.call(str(op), op.call, use)
        lib.disarm(run)
        fired = [a for a in armed if a.fired]
        wt.poll("x")
        if locker is not None:
            sim.locker_stop = True
            run.join([locker])
        run.note(f"{'other.' if use is other else ''}{op} -> {'returned ' + str(r) if ok else type(r).__name__ + ': ' + str(r)[:80]}"
                 + (f"; fired {[a.kind for a in fired]}" if fired else "") + (" lock held" if locker else ""))
        judge(run, op, s0, wt.last, wt.n() - n0, ok, r, bool(fired) or locker is not None or pool._broken, fired)
        if fired or locker is not None:
            w.nontrivial = True
        acks.append((wt.oplen(), wt.n() - 1))
        if not ok and any(a.kind in lib.DISK_KINDS for a in fired):
            doubtful.append((start, op, s0, n0 - 1))
        settle(run, pool)
        if not ok:
            read_back(run, use, wt.last)
        renew()
    # whatever happened, plain edits through both objects still work and show
    for use in (idx, other):
        s0 = wt.last
        if s0.clusters:
            o = run.opg("last")
            c = o.pick(sorted(s0.clusters))
            op = model.Op("pin_clusters", ([c],), {"pinned": c not in s0.pinned_c})
            run.note(f"{op}, no fault")
            n0 = wt.n()
            r = run.must(str(op), op.call, use)
            wt.poll("x")
            judge(run, op, s0, wt.last, wt.n() - n0, True, r, False, [])
            acks.append((wt.oplen(), wt.n() - 1))
    other.close()
    idx.close()
    wt.poll("x")
    total = wt.oplen()
    log = VFS.oplog
    VFS.oplog = None
    states = [x[0] for x in wt.states]
    for j in range(4):
        c = run.ch.sub(f"kill{j}")
        upto = c.draw(total + 1)
        if c.flag(0.5):
            upto = min(total, c.pick(acks)[0] + c.draw(3))
        VFS.oplog = log
        d = w.image_dir()
        VFS.image_kill(d, upto)
        VFS.oplog = None
        sim.fired["process kill"] += 1
        allowed = wt.allowed_at(upto)
        lo = max((n for at, n in acks if at <= upto), default=0)
        allowed = [k for k in allowed if k >= lo] or [lo]
        s, err = lib.read_image(os.path.join(d, "i.db"))
        what = f"kill before file operation {upto} of {total}"
        if err:
            run.fail("kill leaves a broken index", f"{what}: {err}")
        if not any(s == states[k] for k in allowed):
            # a write or sync reported as failed may all the same have left a
            # complete commit in the file
            if any(
                at <= upto and lo <= n and plausible(dop, s0, s) and model.check_summaries(s) is None
                for at, dop, s0, n in doubtful
            ):
                sim.probes["failed write completed a commit"] += 1
                continue
            run.fail("acknowledged edits lost or partial after a kill", f"{what}: {states[allowed[-1]].diff(s)}")
        w.nontrivial = True
        if j == 0:
            pool2 = SimPool(1)
            idx2 = run.must("reopen after kill", run.index, os.path.join(d, "i.db"), None, pool2)
            read_back(run, idx2, s)
            idx2.close()
        shutil.rmtree(d, ignore_errors=True)
    wt.close()


# ---------------------------------------------------------------- C06


def c06(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path, pool, corpus, box, store, idx = setup(run, g)
    history = []

    def check(wt, k):
        s = wt.states[k][0]
        e = model.all_invariants(s)
        if e:
            raise_later.append(f"after {wt.states[k][2]}: {e}")

    idx.close()
    raise_later = []
    wt = run.watch(path, check=check)
    n_clients = 1 + g.draw(3)
    pools = {"p": pool}

    def body(name, n_ops):
        my = run.reopen(path, corpus, pool)
        me = this_task()
        for i in range(n_ops):
            o = w.ch.sub(f"{name}op{i}")
            with oracle():
                s = wt.last
            if raise_later:
                run.fail("summary does not match features", raise_later[0])
            if o.flag(0.12):
                box.store = corpora.gen_store(o, max_docs=8, prev=box.store)
                kw = gen_index_args(o, w, allow_dir=False)
                label = f"index({kw})"
                fn = lambda: my.index(**kw)
            else:
                op = lib.gen_edit(o, s, weights=(6, 4, 2, 4, 2, 2, 1, 3))
                label = str(op)
                fn = lambda: op.call(my)
            armed = None
            if o.flag(0.25) and not sim.faults:
                armed = lib.arm(run, o, o.pick(lib.WORKER_KINDS[:1] + ["submit error"] + lib.DISK_KINDS + ["interrupt", "slow worker", "document error"]), client=me)
            ok, r = run.call(label, fn)
            if armed is not None:
                lib.disarm(run)
            wt.poll("x")
            run.note(f"{name}: {label} -> {'ok' if ok else type(r).__name__}{' fired ' + armed.kind if armed and armed.fired else ''}")
            if raise_later:
                run.fail("summary does not match features", raise_later[0])
            if o.flag(0.15):
                my.close()
                my = run.reopen(path, corpus, pool)
        my.close()

    tasks = [run.client(lambda i=i: body(f"c{i}", 3 + g.draw(6)), f"c{i}") for i in range(n_clients)]
    run.join(tasks)
    settle(run, pool)
    wt.poll("x")
    if raise_later:
        run.fail("summary does not match features", raise_later[0])
    # the last state again through the public interface
    s = wt.last
    fin = run.must("Index", run.index, path, corpus, SimPool(1))
    for c in sorted(s.clusters):
        docs = run.must("cluster_docs", fin.cluster_docs, c)
        m, _ = run.must("cluster_query", fin.cluster_query, c)
        if frozenset(docs) != frozenset(m):
            run.fail("summary does not match features", f"cluster {c}: cluster_docs {list(docs)}, cluster_query {list(m)}")
    if wt.n() > 3:
        w.nontrivial = True
    fin.close()
    wt.close()


# ---------------------------------------------------------------- C08

CONTENTION = (sqlite3.OperationalError,)


def c08(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path, pool, corpus, box, store, idx = setup(run, g, edits=g.draw(3))
    idx.close()
    wt = run.watch(path)
    n = 2 + g.draw(3)
    own_pools = g.flag(0.3)
    ops = []
    reindexing = g.flag(0.4)
    if reindexing:
        box.store = corpora.gen_store(run.opg("new"), max_docs=8, prev=store)

    def reindex(name, i, o, my):
        kw = gen_index_args(o, w, allow_dir=False)
        k0 = wt.n() - 1
        ok, r = run.call(f"{name}#{i} index({kw})", my.index, **kw)
        wt.poll("x")
        k1 = wt.n() - 1
        mine = [k for k in range(k0 + 1, k1 + 1) if wt.states[k][1] == name]
        what = f"index({kw}) by {name}, window {k0}..{k1}, commits {mine}"
        run.note(f"{name}#{i} index({kw}) -> {'returned' if ok else type(r).__name__ + ': ' + str(r)[:60]}; commits {mine} in {k0}..{k1}")
        if k1 - k0 > len(mine):
            w.nontrivial = True
            sim.probes["indexing overlapped another commit"] += 1
        if ok:
            if len(mine) > 1:
                run.fail("indexing committed in parts", what)
            errs = [model.check_index(wt.states[k][0], box.store, kw["index_positions"]) for k in (mine or range(k0, k1 + 1))]
            if all(errs):
                run.fail("indexing beside edits is wrong", f"{what}: {errs[-1]}")
            if mine:
                s = wt.states[mine[0]][0]
                a = wt.states[mine[0] - 1][0]
                if s.members != a.members or s.pinned_c != a.pinned_c or s.pinned_f != a.pinned_f or any(s.feats.get(f) != v for f, v in a.feats.items()):
                    run.fail("indexing undid an edit", f"{what}: {a.diff(s)}")
        elif mine:
            run.fail("failed indexing has an effect", f"{type(r).__name__}: {r}; {what}")
        elif isinstance(r, sqlite3.OperationalError) and "lock" in str(r):
            sim.probes["indexing refused by contention"] += 1
        else:
            run.fail("indexing raised without contention", f"{type(r).__name__}: {r}; {what}")

    def body(name, n_ops):
        p = SimPool(1 + g.draw(2)) if own_pools else pool
        my = run.must("Index", run.index, path, corpus if reindexing else None, p)
        for i in range(n_ops):
            o = w.ch.sub(f"{name}op{i}")
            if reindexing and o.flag(0.2):
                reindex(name, i, o, my)
                continue
            s = wt.last if not o.flag(0.3) else wt.states[max(0, wt.n() - 2)][0]
            op = lib.gen_edit(o, s, weights=(7, 4, 2, 3, 2, 2, 1, 3), refine_iter=2)
            k0 = wt.n() - 1
            if o.flag(0.2):
                lib.stall(run, o, wt)
            label = f"{name}#{i} {op}"
            ok, r = run.call(label, op.call, my)
            wt.poll("x")
            k1 = wt.n() - 1
            mine = [k for k in range(k0 + 1, k1 + 1) if wt.states[k][1] == name]
            run.note(f"{label} -> {'returned ' + str(r) if ok else type(r).__name__ + ': ' + str(r)[:60]}; commits {mine} in {k0}..{k1}")
            ops.append((name, op, ok))
            what = f" (by {name}, window {k0}..{k1})"
            if k1 - k0 > len(mine):
                w.nontrivial = True
                sim.probes["edit overlapped another commit"] += 1
            if ok:
                if len(mine) > 1:
                    run.fail("edit committed in parts", f"{op}: {len(mine)} commits{what}")
                if mine:
                    k = mine[0]
                    a, b = wt.states[k - 1][0], wt.states[k][0]
                    e = "accepted though invalid" if op.raises(a) else op.check(a, b, r)
                    if e:
                        run.fail("edits do not serialise", f"{e}{what}")
                elif not any(
                    op.check(wt.states[k][0], wt.states[k][0], r) is None and not op.raises(wt.states[k][0])
                    for k in range(k0, k1 + 1)
                ):
                    run.fail("acknowledged edit lost", f"{op} returned {r} without a commit{what}")
            else:
                if mine:
                    run.fail("failed edit has an effect", f"{op} raised {type(r).__name__}: {r}{what}")
                if isinstance(r, sqlite3.OperationalError) and "lock" in str(r):
                    sim.probes["edit refused by contention"] += 1
                elif not any(op.raises(wt.states[k][0]) for k in range(k0, k1 + 1)):
                    run.fail("edit raised without contention", f"{op}: {type(r).__name__}: {r}{what}")
        my.close()

    tasks = [run.client(lambda i=i: body(f"c{i}", 2 + g.draw(4)), f"c{i}") for i in range(n)]
    run.join(tasks)
    for k, (s, name, op, _) in enumerate(wt.states):
        e = model.all_invariants(s)
        if e:
            run.fail("concurrent edits left an inconsistent model", f"state {k} after {op}: {e}")
    wt.close()


# ---------------------------------------------------------------- C09


def c09(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path = run.path("i.db")
    pool = run.pool()
    store = corpora.gen_store(g, max_docs=7, min_docs=1)
    corpus, box = corpora.make_corpus(sim, store)
    epochs = 1 + g.draw(3)
    if not run.autockpt and g.flag(0.6):
        run.autockpt = [1, 3, 8][g.draw(3)]
        sim.conn_hook = run._tune
    with run.calm():
        run.index(path, corpus, pool).close()
    for ep in range(epochs):
        VFS.start_log(w.data)
        with run.calm():
            idx = run.must("open after power loss", run.index, path, corpus, pool)
            other = run.index(path, None, pool) if g.flag(0.4) else None
        # what recovery did is part of the log; the state is the first state
        wt = run.watch(path)
        e = model.all_invariants(wt.last)
        if e:
            run.fail("inconsistent after power loss", e)
        n_ops = 1 + g.draw(6)
        for i in range(n_ops):
            o = run.opg("op")
            s = wt.last
            if not s.keys or o.flag(0.2):
                box.store = corpora.gen_store(o, max_docs=7, prev=box.store)
                kw = gen_index_args(o, w, allow_dir=False)
                label = f"index({kw})"
                ok, r = run.call("index", idx.index, **kw)
            else:
                op = lib.gen_edit(o, s)
                if not s.clusters and o.flag(0.7):
                    op = model.Op("initialise_clusters", (1 + o.draw(5),))
                label = str(op)
                ok, r = run.call(label, op.call, other if other is not None and o.flag(0.4) else idx)
            wt.poll("x")
            run.note(f"epoch {ep}: {label} -> {'ok' if ok else type(r).__name__}")
            if o.flag(0.15):
                idx.close()
                wt.poll("x")
                idx = run.must("Index", run.index, path, corpus, pool)
            if o.flag(0.1):
                ckpt(path, o)
        settle(run, pool)
        if g.flag(0.4):
            idx.close()
            if other is not None:
                other.close()
            wt.poll("x")
        total = wt.oplen()
        log = VFS.oplog
        states = [x[0] for x in wt.states]
        chosen = None
        n_img = 3
        for j in range(n_img):
            c = w.ch.sub(f"e{ep}power{j}")
            upto = c.draw(total + 1)
            near = sync_points(log)
            if near and c.flag(0.5):
                upto = min(total, max(0, c.pick(near) - 1 + c.draw(3)))
            VFS.oplog = log
            d = w.image_dir()
            kept, dropped, torn = VFS.image_power(d, upto, c.draw)
            VFS.oplog = None
            sim.fired["power loss"] += 1
            sim.fired["lost write"] += bool(dropped)
            sim.fired["torn write"] += bool(torn)
            if upto < total or dropped or torn:
                w.nontrivial = True
            what = f"epoch {ep}: power loss before file operation {upto} of {total}, {dropped} writes lost, {torn} torn"
            ip = os.path.join(d, "i.db")
            keep = os.path.join(w.dir, "keep")
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(d, keep)
            s, err = lib.read_image(ip)
            if err:
                run.fail("broken after power loss", f"{what}: {err}")
            hi = max(wt.allowed_at(upto))
            if not any(s == states[k] for k in range(hi + 1)):
                run.fail("power loss leaves no prefix", f"{what}: {states[hi].diff(s)}")
            if j == n_img - 1:
                chosen = what
                run.note(what)
            else:
                shutil.rmtree(keep, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
        if not getattr(idx, "_closed_by_us", False):
            try:
                idx.close()
                if other is not None:
                    other.close()
            except sqlite3.Error:
                pass
        wt.close()
        VFS.stop_log()
        # the machine comes back with the last image, before anybody opened it
        shutil.rmtree(w.data)
        shutil.move(keep, w.data)
        pool = SimPool(2)


def ckpt(path, g):
    "Another program checkpoints."
    con = sqlite3.connect(path, isolation_level=None)
    con.execute("pragma wal_checkpoint(%s)" % ["passive", "full", "restart", "truncate"][g.draw(4)])
    con.close()


def sync_points(log):
    return [i for i, e in enumerate(log) if e[0] in (3, 4, 5)]
