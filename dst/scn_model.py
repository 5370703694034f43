"""Modelling: C10 (refinement), C11 (reproducibility)."""

import os
import shutil

import corpora
import lib
import model
from env import VFS, SimPool, oracle
from kernel import this_task
from lib import Run
from scn_edit import setup, late_fault
from scn_index import settle


def copy_db(run, src, name):
    "A copy of an index, made while nobody is using it."
    d = os.path.join(run.w.data, name)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "i.db")
    with oracle():
        from env import real_connect
        con = real_connect(src)
        con.execute("vacuum into ?", [out])
        con.close()
    return out


def gen_valid_refine(g, s, iters=4):
    "Arguments as the documentation allows them."
    op = lib.gen_refine(g, s, iters)
    ids = sorted(s.clusters)
    kw = op.kwargs
    if g.flag(0.15):
        kw["iterations"] = 5 + g.draw(4)
    if g.flag(0.1) and s.keys:
        from pyroaring import BitMap
        kw["probe_query"] = BitMap(g.sample(sorted(s.keys), 1 + g.draw(len(s.keys))))
    if g.flag(0.2):
        kw["target_clusters"] = 1 + g.draw(max(2, 2 * len(ids)))
    return op


def c10(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path, pool, corpus, box, store, idx = setup(run, g, max_docs=9, n_clusters=1 + g.draw(8))
    wt = run.watch(path)
    with run.calm():
        for _ in range(g.draw(4)):
            o = run.opg("pins")
            op = lib.gen_edit(o, wt.last, weights=(3, 1, 0, 1, 5, 4, 0, 0))
            run.call(str(op), op.call, idx)
            wt.poll("x")
            run.note(op)
    if g.flag(0.1):
        s = wt.last
        run.must("pin_features", idx.pin_features, sorted(s.fc))
        wt.poll("x")
    for i in range(1 + g.draw(3)):
        o = run.opg("refine")
        s0 = wt.last
        op = gen_valid_refine(o, s0)
        if o.flag(0.3):
            lib.arm(run, o, "slow worker")
        n0 = wt.n()
        ok, r = run.call(str(op), op.call, idx)
        lib.disarm(run)
        wt.poll("x")
        s1 = wt.last
        run.note(f"{op} on {len(s0.clusters)} clusters, pinned {sorted(s0.pinned_c)}, features {sorted(s0.pinned_f)} -> {'ok' if ok else repr(r)[:80]}")
        if not ok:
            run.fail("refinement raised", f"{op} on {model.M.of(s0).key()}: {type(r).__name__}: {r}")
        e = op.check(s0, s1, r)
        if e:
            run.fail("refinement", e)
        e = model.all_invariants(s1)
        if e:
            run.fail("refinement left a stale model", f"{op}: {e}")
        if s1.members != s0.members:
            w.nontrivial = True
    # what happens inside the selection does not depend on clusters outside it
    s = wt.last
    o = run.opg("meta")
    if len(s.clusters) >= 2 and o.flag(0.6):
        metamorphic(run, o, path, corpus, idx, s)
    idx.close()
    wt.close()


def metamorphic(run, o, path, corpus, idx, s):
    w = run.w
    ids = sorted(s.clusters)
    sel = sorted(o.sample(ids, 1 + o.draw(len(ids) - 1)))
    out = [c for c in ids if c not in sel]
    op = gen_valid_refine(o, s)
    kw = dict(op.kwargs)
    kw["cluster_ids"] = list(sel)
    if "target_clusters" in kw:
        kw["target_clusters"] = max(1, len(sel) + o.draw(5) - 2)
    op = model.Op("refine_clusters", (), kw)
    seed = 1 + o.draw(5)
    idx.close()
    a = copy_db(run, path, "a")
    b = copy_db(run, path, "b")
    with run.calm():
        ia = run.index(a, corpus, SimPool(1), seed=seed)
        ib = run.index(b, corpus, SimPool(1), seed=seed)
        # change something outside the selection in b only
        how = o.draw(3)
        if how == 0:
            ib.delete_clusters(out[: 1 + o.draw(len(out))])
        elif how == 1 and len(out) > 1:
            ib.merge_clusters(out)
        else:
            fs = sorted(f for c in out for f in s.members[c])
            ib.create_cluster_from_features(o.sample(fs, 1 + o.draw(len(fs))))
    run.note(f"{op} with and without a change outside the selection")
    res = []
    for x, p in ((ia, a), (ib, b)):
        before = lib.model_now(p)
        ok, r = run.call(str(op), op.call, x)
        if not ok:
            run.fail("refinement raised", f"{op}: {type(r).__name__}: {r}")
        after = lib.model_now(p)
        e = op.check(before, after, r)
        if e:
            run.fail("refinement", e)
        kept = {c: frozenset(after.members.get(c, ())) for c in sel}
        new = sorted(set(after.clusters) - set(before.clusters))
        res.append((kept, [frozenset(after.members[c]) for c in new]))
        x.close()
    if res[0] != res[1]:
        run.fail("refinement depends on clusters outside the selection", f"{op}: {res[0]} and {res[1]}")
    run.sim.probes["selection independence compared"] += 1
    w.nontrivial = True


# ---------------------------------------------------------------- C11


def run_session(run, name, corpus, plan, seed, pool, batch, disturb):
    """One execution of the same calls; everything but the calls may differ."""
    d = os.path.join(run.w.data, name)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "i.db")
    idx = run.must("Index", run.index, path, corpus, pool, seed)
    out = []
    for i, (what, arg) in enumerate(plan):
        if disturb is not None:
            disturb(i)
        if what == "index":
            box, store, positions = arg
            if box is not None:
                box.store = store
            run.must("index", idx.index, doc_batch_size=batch[i % len(batch)], index_positions=positions)
        else:
            s = lib.model_now(path)
            op = arg(s)
            ok, r = run.call(str(op), op.call, idx)
            out.append((str(op), ok, r if ok else type(r).__name__))
        lib.disarm(run)
        s = lib.model_now(path)
        ids = {v: f for f, v in s.feats.items()}
        out.append((i, what, sorted(ids.items(), key=repr), {c: sorted(m) for c, m in sorted(s.members.items())},
                    sorted(s.pinned_c), sorted(s.pinned_f), s.content()))
        sample = None
        if s.clusters:
            sample = run.must("structured_doc_sample", idx.structured_doc_sample, 2)
            out.append((i, "sample", {c: list(b) for c, b in sample[0].items()}))
    idx.close()
    return out


def c11(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    if g.flag(0.15):
        from realcorpora import Real
        real = Real(run, ["plain", "sx", "twitter"][g.draw(3)])
        real.load(g)
        corpus, store, box = real.corpus, None, None
        run.note(f"{type(corpus).__name__}, {len(real.spec().order)} documents")
    else:
        store = corpora.gen_store(g, max_docs=10, min_docs=2)
        corpus, box = corpora.make_corpus(sim, store)
    plan = [("index", (box, store, bool(g.flag(0.3))))]
    seeds = []
    n = 1 + g.draw(4)
    for i in range(n):
        c = g.draw(10)
        if c == 0 and i:
            if box is not None:
                store = corpora.gen_store(g, max_docs=10, min_docs=2, prev=store)
            plan.append(("index", (box, store, False)))
        elif c < 4 or i == 0:
            kw = {"min_docs": 1 + g.draw(2)}
            k = 1 + g.draw(7)
            plan.append(("edit", lambda s, k=k, kw=kw: model.Op("initialise_clusters", (k,), kw)))
        elif c < 9:
            # the same choices every time the plan is followed
            name = f"plan{i}"
            plan.append(("edit", lambda s, name=name: gen_valid_refine(Frozen(w.ch, name), s)))
        else:
            name = f"plan{i}"
            plan.append(("edit", lambda s, name=name: lib.gen_edit(Frozen(w.ch, name), s)))
    seed = 1 + g.draw(4)
    # first: one worker, one batch, undisturbed
    with run.calm():
        base = run_session(run, "first", corpus, plan, seed, SimPool(1), [1000], None)
    w.outcome = digest(base)
    for v in range(2):
        o = run.opg("again")
        pool = SimPool(1 + o.draw(4))
        batch = [1 + o.draw(5) for _ in plan]

        def disturb(i, o=o):
            if o.flag(0.5):
                for _ in range(1 + o.draw(2)):
                    lib.arm(run, o, "slow worker")

        run.note(f"again with {pool._max_workers} workers, batches {batch}, p_switch {sim.p_switch}")
        sw = sim.switches
        got = run_session(run, f"again{v}", corpus, plan, seed, pool, batch, disturb)
        settle(run, pool)
        if sim.switches - sw > 10:
            w.nontrivial = True
        for a, b in zip(base, got):
            if a != b:
                run.fail("different outcome", f"{model._short_diff(a, b)} at step {a[:2]}")
        if len(base) != len(got):
            run.fail("different outcome", "lengths")


def digest(out):
    "What is compared between processes, and a short form for people."
    import hashlib
    t = repr(out)
    return hashlib.sha256(t.encode()).hexdigest()[:16], repr([x[3] for x in out if len(x) > 4][-1:])[:500]


class Frozen:
    "Choices that are drawn once and repeated for every execution of the plan."

    def __init__(self, ch, name):
        self.ch = ch
        self.store = ch.__dict__.setdefault("_frozen", {}).setdefault(name, [])
        self.name = name
        self.i = 0

    def _next(self, fn):
        if self.i >= len(self.store):
            self.store.append(fn())
        v = self.store[self.i]
        self.i += 1
        return v

    def draw(self, n):
        return self._next(lambda: self.ch.draw(self.name, n)) % max(1, n)

    def flag(self, p):
        return self._next(lambda: self.ch.flag(self.name, p))

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, w):
        return self._next(lambda: self.ch.weighted(self.name, w))

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out
