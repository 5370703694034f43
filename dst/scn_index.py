"""Indexing: C01, C02, C03, C05, C18."""

import os
import shutil

import corpora
import lib
import model
import vfs as vfsmod
from env import VFS, SimPool, oracle
from kernel import Fault, this_task
from lib import Run


def gen_index_args(g, w, allow_dir=True, small=True):
    kw = {"doc_batch_size": 1 + g.draw(5), "index_positions": bool(g.flag(0.6))}
    if g.flag(0.2):
        kw["workers"] = 1 + g.draw(4)
    if allow_dir and g.flag(0.15):
        d = os.path.join(w.data, "wd")
        os.makedirs(d, exist_ok=True)
        kw["working_dir"] = d
    return kw


def check_indexed(run, s, store, positions, what):
    e = model.check_index(s, store, positions)
    if e:
        run.fail("index differs from corpus", f"{what}: {e}")


def slow_batches(run, g, n=2):
    for _ in range(g.draw(n + 1)):
        lib.arm(run, g, "slow worker")


def tempfiles(w):
    out = []
    for d, dirs, names in os.walk(w.tmp):
        out += [os.path.join(d, x) for x in dirs + names]
    wd = os.path.join(w.data, "wd")
    if os.path.isdir(wd):
        out += [os.path.join(wd, x) for x in os.listdir(wd)]
    return [os.path.relpath(x, w.dir) for x in out]


def settle(run, *pools):
    "Let leftover pool tasks finish."
    run.sim.block(
        lambda: all(p._broken or (p.busy == 0 and not p._queue) for p in pools), "settle"
    )


# ---------------------------------------------------------------- C01


def c01(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path = run.path("i.db")
    pool = run.pool()
    real = None
    if g.flag(0.25):
        from realcorpora import Real
        real = Real(run, ["plain", "sx", "twitter"][g.draw(3)])
        real.load(g)
        corpus, store = real.corpus, real.spec()
        run.note(f"{type(corpus).__name__}, {len(store.order)} documents")
    else:
        big = g.flag(0.015)
        if big:
            store = corpora.gen_big_store(g, 200 + g.draw(1200))
        else:
            store = corpora.gen_store(g, max_docs=14, min_docs=0 if g.flag(0.05) else 1)
        corpus, box = corpora.make_corpus(sim, store)
    idx = run.index(path, corpus, pool)
    wt = run.watch(path)
    rounds = 1 + g.draw(3)
    for r in range(rounds):
        o = run.opg("index")
        kw = gen_index_args(o, w)
        if real is None and len(store.order) > 100:
            kw["doc_batch_size"] = [1000, 137, 50, 400, len(store.order) // (33 + o.draw(100))][o.draw(5)]
        if r and real is not None:
            if o.flag(0.7):
                run.note(f"{real.load(o)}")
                store = real.spec()
        elif r:
            store = corpora.gen_store(o, max_docs=14, min_docs=0 if o.flag(0.05) else 1, prev=store)
            box.store = store
        slow_batches(run, o)
        run.note(f"index({kw}) of {len(store.order)} documents")
        other = index_other(run, r, pool, kw) if o.flag(0.15) else None
        run.must("index", idx.index, **kw)
        if other is not None:
            other()
        lib.disarm(run)
        wt.poll("x")
        check_indexed(run, wt.last, store, kw["index_positions"], f"round {r}")
        public_check(run, idx, wt.last, store, o)
        if r + 1 < rounds and o.flag(0.5):
            # what happens to an index between two rounds
            for _ in range(1 + o.draw(3)):
                op = lib.gen_edit(o, wt.last)
                ok, e = run.call(str(op), op.call, idx)
                run.note(f"{op} -> {'ok' if ok else type(e).__name__}")
                wt.poll("x")
            if o.flag(0.3):
                idx.close()
                pool = run.pool()
                idx = run.must("Index", run.index, path, corpus, pool)
        if len(store.order) > kw["doc_batch_size"]:
            w.nontrivial = True
    idx.close()
    wt.close()


def index_other(run, r, pool, kw):
    "Another index and corpus, indexed at the same time with the same pool and working directory."
    g = run.opg("other")
    path = run.path(f"other{r}.db")
    store = corpora.gen_store(g, max_docs=9)
    corpus, _ = corpora.make_corpus(run.sim, store)
    if g.flag(0.3):
        pool = run.pool()
    kw2 = dict(gen_index_args(g, run.w, allow_dir=False))
    if "working_dir" in kw:
        kw2["working_dir"] = kw["working_dir"]
    run.note(f"meanwhile index({kw2}) of {len(store.order)} other documents into another index")

    def client():
        idx = run.must("Index", run.index, path, corpus, pool)
        run.must("index the other", idx.index, **kw2)
        idx.close()

    task = run.client(client, "other")

    def check():
        run.join([task])
        check_indexed(run, lib.model_now(path), store, kw2["index_positions"], "the other index")

    return check


def public_check(run, idx, s, store, g):
    "The same through the public interface, on a sample of features."
    keys, feats, _ = model.expected_content(store, False)
    items = sorted(feats.items(), key=repr)
    for v, docs in g.sample(items, 6):
        got = run.must("idx[(field, value)]", idx.__getitem__, v)
        if frozenset(got) != docs:
            run.fail("feature retrieves wrong documents", f"{v}: {sorted(got)}, corpus {sorted(docs)}")
        fid = run.must("lookup_feature_id", idx.lookup_feature_id, v)
        if run.must("lookup_feature", idx.lookup_feature, fid) != v:
            run.fail("feature id maps back wrongly", f"{v}")
        got = run.must("idx[id]", idx.__getitem__, fid)
        if frozenset(got) != docs:
            run.fail("feature retrieves wrong documents", f"{v} by id: {sorted(got)}")
    from pyroaring import BitMap
    q = BitMap(g.sample(sorted(keys), 4))
    got = run.must("convert_query_to_keys", idx.convert_query_to_keys, q)
    if got != {keys[i]: i for i in q}:
        run.fail("document keys wrong", f"{got}")


# ---------------------------------------------------------------- C02


def c02(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path = run.path("i.db")
    pool = run.pool()
    store0 = corpora.gen_store(g, max_docs=8)
    corpus, box = corpora.make_corpus(sim, store0)
    fresh = g.flag(0.2)
    pos0 = bool(g.flag(0.5))
    if fresh:
        idx = run.index(path, corpus, pool)
    else:
        idx = lib.build_base(run, path, run.opg("base"), corpus, pool, pos0, edits=g.draw(4))
    wt = run.watch(path)
    before = wt.last
    o = run.opg("index")
    store1 = corpora.gen_store(o, max_docs=12, prev=store0)
    box.store = store1
    kw = gen_index_args(o, w)
    if run.opg("inside").flag(0.15):
        in_transaction(run, run.opg("inside2"), wt, idx, kw)
        before = wt.last
    f = run.opg("fault")
    kinds = lib.WORKER_KINDS + lib.DISK_KINDS + lib.START_KINDS + ["document error", "interrupt", "slow worker", "lock held elsewhere"]
    n_faults = 1 + f.draw(2)
    armed = []
    locker = None
    main = this_task()
    for _ in range(n_faults):
        kind = f.pick(kinds)
        if kind == "lock held elsewhere":
            sim.armed[kind] += 1
            if locker is None:
                locker = start_locker(run, path, f)
            continue
        armed.append(lib.arm(run, f, kind, client=main))
    run.note(f"index({kw}) of {len(store1.order)} documents over {'nothing' if fresh else len(store0.order)}, faults armed: {[a.kind for a in armed]}")
    n0 = wt.n()
    ok, r = run.call("index", idx.index, **kw)
    lib.disarm(run)
    fired = [a for a in armed if a.fired]
    wt.poll("x")
    if locker is not None:
        run.sim.locker_stop = True
        run.join([locker])
    w.nontrivial = bool(fired) or (locker is not None and not ok)
    run.note(f"-> {'returned' if ok else type(r).__name__ + ': ' + str(r)[:100]}; fired {[a.kind for a in fired]}; {wt.n() - n0} commits")
    if not ok and not fired and locker is None:
        run.fail("index raised without a fault", f"{type(r).__name__}: {r}")
    late = [a for a in fired if a.kind in lib.DISK_KINDS or a.kind == "interrupt"]
    if ok:
        check_indexed(run, wt.last, store1, kw["index_positions"], "index returned")
        e = model.check_summaries(wt.last)
        if e:
            run.fail("index returned with stale model", e)
        now_store, now_pos = store1, kw["index_positions"]
    else:
        if wt.n() - n0 > 1:
            run.fail("failed index committed in parts", f"{wt.n() - n0} commits, then {type(r).__name__}")
        if wt.last == before:
            now_store = None
        elif late and model.check_index(wt.last, store1, kw["index_positions"]) is None and model.check_summaries(wt.last) is None:
            sim.probes["fault after the commit"] += 1
            now_store = store1
        else:
            run.fail("failed index changed the index", f"{type(r).__name__}: {r}; {before.diff(wt.last)}")
    # the same object, unless its pool is gone
    settle(run, pool)
    left = tempfiles(w)
    if left and not any(a.kind == "interrupt" for a in fired):
        run.fail("temporary files left", left)
    if left:
        sim.probes["temp files left by interrupt"] += 1
        run.fail("temporary files left after interrupt", left)
    if pool._broken:
        sim.probes["pool replaced"] += 1
        pool = SimPool(2)
        old = idx
        read_back(run, old, wt.last)
        idx = run.must("Index", run.index, path, corpus, pool)
    read_back(run, idx, wt.last)
    # another connection can write
    other = run.must("Index", run.index, path, None, pool)
    s = wt.last
    if s.clusters:
        c = min(s.clusters)
        on = c not in s.pinned_c
        run.must("pin_clusters elsewhere", other.pin_clusters, [c], on)
        wt.poll("x")
        if (c in wt.last.pinned_c) != on:
            run.fail("edit after failed index lost", f"pin_clusters([{c}], {on})")
        # and an edit through the same object is committed
        run.must("pin_clusters", idx.pin_clusters, [c], not on)
        wt.poll("x")
        if (c in wt.last.pinned_c) == on:
            run.fail("edit after failed index not committed", f"pin_clusters([{c}], {not on})")
    other.close()
    # and one that is not possible is still refused
    n1, s = wt.n(), wt.last
    bad, r = run.call("create_cluster_from_features", idx.create_cluster_from_features, [*sorted(s.feats)[:1], 99999])
    wt.poll("x")
    if bad or wt.last != s:
        run.fail("index object left in another mode", f"creating a cluster of a feature that is not in the index {'returned' if bad else 'raised'}; {s.diff(wt.last)}")
    base = wt.last
    kw2 = gen_index_args(run.opg("again"), w)
    run.note(f"index({kw2}) again, no faults")
    run.must("index again", idx.index, **kw2)
    wt.poll("x")
    check_indexed(run, wt.last, store1, kw2["index_positions"], "index again")
    e = model.check_summaries(wt.last)
    if e:
        run.fail("index again left stale model", e)
    check_preserved(run, base, wt.last)
    settle(run, pool)
    left = tempfiles(w)
    if left:
        run.fail("temporary files left", left)
    idx.close()
    wt.close()


def in_transaction(run, g, wt, idx, kw):
    "Indexing refused inside a transaction of the caller's leaves that as it was."
    n0 = wt.n()
    run.must("begin", idx.db.execute, "begin")
    op = None
    if g.flag(0.7):
        op = lib.gen_edit(g, wt.last, weights=(6, 4, 2, 3, 3, 3, 1, 0))
        if run.call(str(op), op.call, idx)[0] is False:
            op = None
    was = lib.inside(idx)
    ok, r = run.call("index in a transaction", idx.index, **kw)
    wt.poll("x")
    run.note(f"in a transaction: {op}, index({kw}) -> {'returned' if ok else type(r).__name__ + ': ' + str(r)[:80]}")
    if ok:
        run.fail("failed index changed the index", f"index() returned inside a transaction of the caller's with {op}, instead of raising; {'the transaction was committed' if wt.n() != n0 else 'nothing was committed'}")
    if not idx.db.in_transaction or wt.n() != n0 or lib.inside(idx) != was:
        run.fail("failed index changed the index", f"inside a transaction with {op}: {type(r).__name__}: {r}; {'the transaction is over' if not idx.db.in_transaction else was.diff(lib.inside(idx))}")
    run.must("commit", idx.db.execute, "commit")
    wt.poll("x")
    if wt.last != was:
        run.fail("failed index changed the index", f"inside a transaction with {op}, then committed: {was.diff(wt.last)}")


def start_locker(run, path, g, now=False, holds=(0.3, 4, 20)):
    "Another program holds the write lock for a while, from some moment on."
    sim = run.sim
    delay = sim.steps + [0, 2, 6, 20][g.draw(4)] if now else [0, 5, 40, 200][g.draw(4)]
    hold = holds[g.draw(len(holds))]
    sim.locker_stop = False

    def locker():
        import sqlite3
        sim.block(lambda: sim.steps >= delay or sim.locker_stop, "delay")
        if sim.locker_stop:
            return
        try:
            con = sqlite3.connect(path, isolation_level=None)
        except sqlite3.OperationalError:
            return
        try:
            con.execute("begin immediate")
        except sqlite3.OperationalError:
            con.close()
            return
        sim.fired["lock held elsewhere"] += 1
        sim.block(lambda: sim.locker_stop, "hold", int(hold * 1e6))
        con.execute("rollback")
        con.close()

    return run.client(locker, "locker")


def read_back(run, idx, s):
    "What the object answers is the committed state."
    ids = run.must("cluster_ids", lambda: idx.cluster_ids)
    if sorted(ids) != sorted(s.clusters):
        run.fail("object answers from another state", f"cluster ids {ids}, committed {sorted(s.clusters)}")
    top = run.must("top_cluster_features", idx.top_cluster_features, 3)
    if not model.same_top(s, top, 3):
        run.fail("object answers from another state", f"top_cluster_features {top}")
    for f in list(s.feats)[:3]:
        if frozenset(run.must("idx[id]", idx.__getitem__, f)) != s.docs[f]:
            run.fail("object answers from another state", f"feature {s.feats[f]}")


def check_preserved(run, s0, s1):
    "C05: ids and model survive re-indexing."
    for f, v in s0.feats.items():
        if s1.feats.get(f) != v:
            run.fail("feature id changed", f"{f} was {v}, is {s1.feats.get(f)}")
    if s1.members != s0.members:
        run.fail("model changed by re-indexing", f"{s0.members} -> {s1.members}")
    if s1.pinned_c != s0.pinned_c or s1.pinned_f != s0.pinned_f:
        run.fail("pins changed by re-indexing", f"{sorted(s0.pinned_c)} {sorted(s0.pinned_f)} -> {sorted(s1.pinned_c)} {sorted(s1.pinned_f)}")


# ---------------------------------------------------------------- C03


def c03(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path = run.path("i.db")
    pool = run.pool()
    store0 = corpora.gen_store(g, max_docs=8)
    corpus, box = corpora.make_corpus(sim, store0)
    fresh = g.flag(0.2)
    pos0 = bool(g.flag(0.5))
    if fresh:
        idx = run.index(path, corpus, pool)
    else:
        idx = lib.build_base(run, path, run.opg("base"), corpus, pool, pos0, edits=g.draw(3))
    o = run.opg("index")
    store1 = corpora.gen_store(o, max_docs=10, prev=store0)
    box.store = store1
    kw = gen_index_args(o, w)
    f = run.opg("fault")
    if f.flag(0.3):
        lib.arm(run, f, f.pick(["worker exception", "document error", "worker death", "slow worker", "disk full"]))
    wt = run.watch(path)
    VFS.start_log(w.data)
    before = wt.last
    run.note(f"index({kw}) of {len(store1.order)} documents over {'nothing' if fresh else len(store0.order)}")
    ok, r = run.call("index", idx.index, **kw)
    lib.disarm(run)
    wt.poll("x")
    returned_at = wt.oplen()
    n_ret = wt.n()
    if ok:
        check_indexed(run, wt.last, store1, kw["index_positions"], "index returned")
    elif wt.last != before:
        pass  # C02 looks at that
    tail = run.opg("tail")
    settle(run, pool)
    if tail.flag(0.5):
        idx.close()
        wt.poll("close")
    total = wt.oplen()
    log = VFS.oplog
    bounds = wt
    VFS.oplog = None
    states = [x[0] for x in wt.states]
    for k, s in enumerate(states):
        if k == 0 and fresh:
            continue
        e = model.all_invariants(s)
        if e and k:
            run.fail("committed state inconsistent", f"state {k}: {e}")
        if k and model.check_index(s, store1, kw["index_positions"]):
            run.fail("committed state is neither version", f"state {k}: {model.check_index(s, store1, kw['index_positions'])}")
    crash = run.opg("crash")
    n_img = 8
    for j in range(n_img):
        c = run.ch.sub(f"crash{j}")
        power = c.flag(0.4)
        upto = c.draw(total + 1)
        if len(wt.bounds) > 1 and c.flag(0.4):
            lo, hi = wt.bounds[-1]
            upto = min(total, max(0, lo - 2 + c.draw(hi - lo + 5)))
        VFS.oplog = log
        d = w.image_dir()
        allowed = wt.allowed_at(upto)
        if power:
            kept, dropped, torn = VFS.image_power(d, upto, c.draw)
            allowed = list(range(max(allowed) + 1))
            sim.fired["power loss"] += 1
            if torn:
                sim.fired["torn write"] += 1
            if dropped:
                sim.fired["lost write"] += 1
        else:
            VFS.image_kill(d, upto)
            if ok and upto >= returned_at:
                allowed = [n_ret - 1]
            sim.fired["process kill"] += 1
        VFS.oplog = None
        what = f"{'power loss' if power else 'kill'} before file operation {upto} of {total} (commits at {wt.bounds[1:]})"
        ipath = os.path.join(d, "i.db")
        s, err = lib.read_image(ipath)
        if err:
            run.fail("crash leaves a broken index", f"{what}: {err}")
        if not any(s == states[k] for k in allowed):
            run.fail("crash leaves neither version", f"{what}: {states[allowed[-1]].diff(s)}")
        e = model.all_invariants(s)
        if e and not (fresh and not s.keys):
            run.fail("crash leaves a mixed index", f"{what}: {e}")
        if upto < total:
            w.nontrivial = True
        if j < 2:
            # reopen with the real code and index again
            corpus2, _ = corpora.make_corpus(sim, store1)
            pool2 = SimPool(2)
            run.note(f"{what}; reopen, index again")
            idx2 = run.must("reopen after crash", run.index, ipath, corpus2, pool2)
            kw2 = dict(kw)
            kw2["doc_batch_size"] = 1 + c.draw(4)
            if "working_dir" in kw2:
                kw2["working_dir"] = os.path.join(d, "wd")
                os.makedirs(kw2["working_dir"], exist_ok=True)
            run.must("index after crash", idx2.index, **kw2)
            s2 = lib.model_now(ipath)
            check_indexed(run, s2, store1, kw2["index_positions"], "after crash")
            e = model.check_summaries(s2)
            if e:
                run.fail("index after crash leaves stale model", e)
            check_preserved(run, s, s2)
            idx2.close()
        shutil.rmtree(d, ignore_errors=True)
    wt.close()


# ---------------------------------------------------------------- C05


def c05(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path = run.path("i.db")
    pool = run.pool()
    store = corpora.gen_store(g, max_docs=9)
    corpus, box = corpora.make_corpus(sim, store)
    idx = lib.build_base(run, path, run.opg("base"), corpus, pool, bool(g.flag(0.5)), n_clusters=1 + g.draw(5), edits=g.draw(4))
    wt = run.watch(path)
    rounds = 1 + g.draw(3)
    for r in range(rounds):
        o = run.opg("round")
        for _ in range(o.draw(3)):
            op = lib.gen_edit(o, wt.last, weights=(6, 4, 1, 3, 3, 3, 1, 1))
            run.note(op)
            run.call(str(op), op.call, idx)
            wt.poll("x")
        if o.flag(0.25):
            # an attempt that fails first
            lib.arm(run, o, o.pick(["document error", "worker exception", "disk full"]))
            box.store = corpora.gen_store(o, max_docs=9, prev=store)
            ok, e = run.call("index", idx.index, doc_batch_size=2)
            lib.disarm(run)
            wt.poll("x")
            run.note(f"faulted index: {'returned' if ok else type(e).__name__}")
            if ok:
                store = box.store
            settle(run, pool)
        s0 = wt.last
        store = corpora.gen_store(o, max_docs=10, prev=store)
        box.store = store
        kw = gen_index_args(o, w)
        if o.flag(0.2):
            idx.close()
            idx = run.must("Index", run.index, path, corpus, pool)
        run.note(f"index({kw}) of {len(store.order)} documents")
        run.must("index", idx.index, **kw)
        wt.poll("x")
        s1 = wt.last
        check_preserved(run, s0, s1)
        e = model.check_summaries(s1)
        if e:
            run.fail("summaries not those of the new contents", e)
        check_indexed(run, s1, store, kw["index_positions"], "re-index")
        if s0.members and s0.content() != s1.content():
            w.nontrivial = True
        if any(f for f in s0.fc if not s1.docs[f]):
            sim.probes["model feature vanished from corpus"] += 1
    # through the public interface
    read_back(run, idx, wt.last)
    for c in list(wt.last.clusters)[:3]:
        got = frozenset(run.must("cluster_docs", idx.cluster_docs, c))
        if got != wt.last.cdocs[c]:
            run.fail("cluster_docs differs", f"{c}")
    idx.close()
    wt.close()


# ---------------------------------------------------------------- C18


def c18(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path = run.path("i.db")
    n_workers = 1 + g.draw(4)
    pool = run.pool(n_workers)
    big = g.flag(0.04)
    store = corpora.gen_big_store(g, 150 + g.draw(250)) if big else corpora.gen_store(g, max_docs=40, min_docs=6)
    corpus, box = corpora.make_corpus(sim, store)
    idx = run.index(path, corpus, pool)
    o = run.opg("index")
    if not big and o.flag(0.25):
        # again, over what is there already
        run.must("index", idx.index, doc_batch_size=50)
        if o.flag(0.5):
            run.must("initialise_clusters", idx.initialise_clusters, 3)
        box.store = store = corpora.gen_store(o, max_docs=40, min_docs=6, prev=store)
        box.read_keys = 0
    batch = 1 + o.draw(4)
    kw = {"doc_batch_size": batch, "index_positions": bool(o.flag(0.4))}
    limit = n_workers
    if o.flag(0.3):
        limit = kw["workers"] = 1 + o.draw(5)
    for _ in range(1 + o.draw(3)):
        lib.arm(run, o, "slow worker")
    state = {"max": 0, "done": 0, "ahead": 0}
    sizes = {}

    def on_submit(p, fn, args, fut):
        keys = [a for a in args if isinstance(a, (list, tuple))]
        n = max((len(a) for a in keys), default=0)
        sizes[fut] = n
        if n > batch:
            run.fail("batch larger than requested", f"{n} documents, batch size {batch}")
        if p.inflight > limit + 1:
            run.fail("too many batches in flight", f"{p.inflight} submitted and unfinished, {limit} workers")
        state["max"] = max(state["max"], p.inflight)

    def on_finish(p, fut):
        state["done"] += sizes.get(fut, 0)

    orig_keys = type(corpus).keys

    def on_read():
        ahead = box.read_keys - state["done"]
        state["ahead"] = max(state["ahead"], ahead)
        if ahead > (limit + 2) * batch:
            run.fail("reads too far ahead", f"{box.read_keys} keys read, {state['done']} documents indexed, {limit} workers, batch {batch}")

    sim.submit_hook = on_submit
    sim.finish_hook = on_finish
    box.on_read = on_read
    run.note(f"index({kw}) of {len(store.order)} documents, {n_workers} workers")
    run.must("index", idx.index, **kw)
    sim.submit_hook = sim.finish_hook = None
    lib.disarm(run)
    if len(store.order) > batch * (limit + 2):
        w.nontrivial = True
    if state["max"] == limit + 1:
        sim.probes["in-flight limit reached"] += 1
    idx.close()
