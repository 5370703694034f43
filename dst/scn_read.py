"""Reading beside writers and through the pool: C04, C12, C13, C19."""

import collections
import csv
import os
import sqlite3

from pyroaring import BitMap

import corpora
import lib
import model
from env import SimPool, oracle
from kernel import this_task
from lib import Run
from scn_edit import setup
from scn_index import gen_index_args, read_back, settle, slow_batches


def ids_of(b):
    return frozenset(int(x) for x in b)


def is_docs(b, want):
    "A set-like answer of document ids: exactly these, each once."
    got = list(b)
    return len(got) == len(want) and frozenset(got) == frozenset(want)


# ---------------------------------------------------------------- specifications of the reads


class Read:
    """One read call and what it must answer on a given committed state."""

    def __init__(self, name, args, fn, match, may_raise=None):
        self.name = name
        self.args = args
        self.fn = fn
        self.match = match
        self.may_raise = may_raise or (lambda s: False)

    def __repr__(self):
        return f"{self.name}({', '.join(repr(a) for a in self.args)})"[:160]


def bitslice_counts(bitslice):
    counts = collections.Counter()
    for i, b in enumerate(bitslice):
        for d in b:
            counts[d] += 1 << i
    return dict(counts)


def query_counts(s, feats):
    c = collections.Counter()
    for f in feats:
        for d in s.docs.get(f, ()):
            c[d] += 1
    return dict(c)


def field_rows(s, field, min_docs):
    return sorted(
        ((s.feats[f][1], s.fcount[f], s.docs[f]) for f in s.feats
         if s.feats[f][0] == field and s.fcount[f] >= min_docs),
        key=lambda r: model.sql_order(r[0]),
    )


def judge_sample(s, out, n, wanted):
    "A structured sample against one committed state; an error string or None."
    samples, flags = out
    chosen = set(s.clusters) & set(wanted) if wanted else set(s.clusters)
    if set(samples) != chosen:
        return f"sampled clusters {sorted(samples)}, chosen {sorted(chosen)}"
    seen = set()
    for c, b in samples.items():
        docs = list(b)
        if len(set(docs)) != len(docs) or set(docs) - s.cdocs[c]:
            return f"sample of cluster {c} {docs} is not from its documents {sorted(s.cdocs[c])}"
        if seen & set(docs):
            return f"documents {sorted(seen & set(docs))} sampled twice"
        if n > 0 and len(docs) > n:
            return f"{len(docs)} documents sampled from cluster {c}, {n} asked for"
        seen |= set(docs)
    for c, b in samples.items():
        if (n <= 0 or len(b) < n) and s.cdocs[c] - seen:
            return f"cluster {c} gave {len(b)} documents though {sorted(s.cdocs[c] - seen)} were available"
    want = {c: d & seen for c, d in s.cdocs.items() if d & seen}
    if {c: ids_of(b) for c, b in flags.items()} != want:
        return f"cluster flags {({c: sorted(b) for c, b in flags.items()})}, are {({c: sorted(d) for c, d in want.items()})}"
    return None


READS = (
    "top_cluster_features", "cluster_query", "structured_doc_sample", "convert_query_to_keys",
    "intersect_queries_with_field", "__getitem__", "cluster_docs", "cluster_features", "union_bitslice",
    "iter_field_docs", "indexed_field_summary", "cluster_ids", "lookup_feature", "pinned_cluster_ids",
)


def gen_read(g, s, weights=(5, 5, 5, 3, 4, 2, 2, 2, 4, 2, 1, 2, 1, 1)):
    name = READS[g.weighted(list(weights))]
    cl = sorted(s.clusters)
    fs = sorted(s.feats)
    if name == "top_cluster_features":
        k = [1, 3, 20, 0][g.draw(4)]
        return Read(name, (k,), lambda i: i.top_cluster_features(top_k=k), lambda s, r: model.same_top(s, r, k))
    if name == "cluster_query":
        c = g.pick(cl) if cl else 1

        def match(s, r):
            feats = s.members.get(c, ())
            want = query_counts(s, feats)
            return is_docs(r[0], want) and bitslice_counts(r[1]) == want
        return Read(name, (c,), lambda i: i.cluster_query(c), match)
    if name == "structured_doc_sample":
        n = [0, 1, 2, 100][g.draw(4)]
        sub = g.sample(cl, 1 + g.draw(3)) if g.flag(0.3) else None
        return Read(name, (n, sub), lambda i: i.structured_doc_sample(docs_per_cluster=n, cluster_ids=sub),
                    lambda s, r: judge_sample(s, r, n, sub) is None)
    if name == "convert_query_to_keys":
        q = BitMap(g.sample(sorted(s.keys), 1 + g.draw(6)))
        return Read(name, (list(q),), lambda i: i.convert_query_to_keys(q),
                    lambda s, r: all(d in s.keys for d in q) and r == {s.keys[d]: d for d in q},
                    lambda s: any(d not in s.keys for d in q))
    if name == "intersect_queries_with_field":
        field = ["text", "tag", "nope", "At"][g.draw(4)]
        qs = {f"q{i}": BitMap(g.sample(sorted(s.keys), 1 + g.draw(5))) for i in range(1 + g.draw(2))}

        def match(s, r):
            rows = field_rows(s, field, 1)
            return (list(r[0]) == [x[0] for x in rows] and list(r[1]) == [x[1] for x in rows]
                    and all(list(r[2].get(k, [])) == [len(x[2] & frozenset(q)) for x in rows] for k, q in qs.items()))
        return Read(name, (field, {k: list(v) for k, v in qs.items()}), lambda i: i.intersect_queries_with_field(qs, field), match)
    if name == "__getitem__":
        f = g.pick(fs) if fs else 1
        v = s.feats.get(f, ("text", "a"))
        if g.flag(0.5):
            return Read(name, (f,), lambda i: i[f], lambda s, r: is_docs(r, s.docs.get(f, ())))
        return Read(name, (v,), lambda i: i[v], lambda s, r: is_docs(r, next((s.docs[k] for k, x in s.feats.items() if x == v), ())))
    if name == "cluster_docs":
        c = g.pick(cl) if cl else 1
        return Read(name, (c,), lambda i: i.cluster_docs(c), lambda s, r: c in s.clusters and is_docs(r, s.cdocs[c]),
                    lambda s: c not in s.clusters)
    if name == "cluster_features":
        c = g.pick(cl) if cl else 1
        k = [2, 100][g.draw(2)]

        def match(s, r):
            rows = sorted(((s.fc[f][1], f, *s.feats[f]) for f in s.members.get(c, ())), key=lambda x: -x[0])
            return model.same_features(rows, r, k)
        return Read(name, (c, k), lambda i: i.cluster_features(c, top_k=k), match)
    if name == "union_bitslice":
        k = g.sample(fs, 2 + g.draw(4))

        def match(s, r):
            want = query_counts(s, k)
            return is_docs(r[0], want) and bitslice_counts(r[1]) == want
        return Read(name, (k,), lambda i: i.union_bitslice(k), match)
    if name == "iter_field_docs":
        field = ["text", "tag", "At"][g.draw(3)]
        m = 1 + g.draw(2)
        return Read(name, (field, m), lambda i: list(i.iter_field_docs(field, min_docs=m)),
                    lambda s, r: [(a, b, frozenset(c)) for a, b, c in r] == field_rows(s, field, m))
    if name == "indexed_field_summary":
        return Read(name, (), lambda i: i.indexed_field_summary(),
                    lambda s, r: {x[0]: tuple(x[1:]) for x in r} == s.fsum)
    if name == "cluster_ids":
        return Read(name, (), lambda i: i.cluster_ids, lambda s, r: sorted(r) == sorted(s.clusters))
    if name == "pinned_cluster_ids":
        return Read(name, (), lambda i: i.pinned_cluster_ids, lambda s, r: set(r) == s.pinned_c)
    f = g.pick(fs) if fs else 1
    return Read("lookup_feature", (f,), lambda i: i.lookup_feature(f),
                lambda s, r: f in s.feats and tuple(r) == s.feats[f], lambda s: f not in s.feats)


# ---------------------------------------------------------------- C04


def c04(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path, pool, corpus, box, store, idx = setup(run, g, edits=g.draw(3), positions=bool(g.flag(0.3)))
    idx.close()
    wt = run.watch(path)
    sim.p_switch = lib.P_SWITCH[1 + run.k.draw(4)]
    done = []
    n_readers = 1 + g.draw(3)
    n_writers = 1 + g.draw(2)

    def writer(name):
        my = run.reopen(path, corpus, pool)
        me = this_task()
        for i in range(2 + w.ch.sub(name).draw(4)):
            o = w.ch.sub(f"{name}op{i}")
            s = wt.last
            if o.flag(0.35):
                box.store = corpora.gen_store(o, max_docs=8, prev=box.store)
                kw = gen_index_args(o, w, allow_dir=False)
                label, fn = f"index({kw})", lambda: my.index(**kw)
            else:
                op = lib.gen_edit(o, s, weights=(6, 5, 3, 3, 2, 2, 2, 2))
                label, fn = str(op), lambda: op.call(my)
            if o.flag(0.15) and not sim.faults:
                lib.arm(run, o, o.pick(["document error", "worker exception", "interrupt"]), client=me)
            ok, r = run.call(label, fn)
            lib.disarm(run)
            wt.poll("x")
            run.note(f"{name}: {label} -> {'ok' if ok else type(r).__name__}")
        my.close()
        done.append(name)

    def reader(name):
        my = run.reopen(path, corpus, pool)
        i = 0
        while i < 25 and (len(done) < n_writers or i < 3):
            o = w.ch.sub(f"{name}op{i}")
            i += 1
            if o.flag(0.05):
                my.close()
                my = run.reopen(path, corpus, pool)
            if o.flag(0.1):
                one_view(run, w, wt, my, f"{name}op{i}t", lambda: len(done) < n_writers)
            rd = gen_read(o, wt.states[max(0, wt.n() - 1 - o.biased(2, 0.2))][0])
            k0 = wt.n() - 1
            if o.flag(0.35) and len(done) < n_writers:
                lib.stall(run, o, wt)
            ok, r = run.call(str(rd), rd.fn, my)
            wt.poll("x")
            k1 = wt.n() - 1
            if k1 > k0:
                sim.probes["read overlapped a commit"] += 1
                w.nontrivial = True
            if ok:
                if any(rd.match(wt.states[k][0], r) for k in range(k0, k1 + 1)):
                    continue
                run.note(f"{name}: {rd} -> {str(r)[:100]} in states {k0}..{k1}")
                run.fail("read of no committed state", f"{rd} answered {str(r)[:300]}, which is true of none of states {k0}..{k1}: "
                         + " | ".join(f"{k}: {wt.states[k][0].content()[1]} {wt.states[k][0].model()[0]}" for k in range(k0, k1 + 1))[:700])
            if not any(rd.may_raise(wt.states[k][0]) for k in range(k0, k1 + 1)):
                run.fail("read raised", f"{rd}: {type(r).__name__}: {r} in states {k0}..{k1}")
        my.close()

    tasks = [run.client(lambda i=i: writer(f"w{i}"), f"w{i}") for i in range(n_writers)]
    tasks += [run.client(lambda i=i: reader(f"r{i}"), f"r{i}") for i in range(n_readers)]
    run.join(tasks)
    wt.close()


def one_view(run, w, wt, my, name, busy):
    "Reads inside one transaction of the caller's are all answered from the same state."
    run.must("begin", my.db.execute, "begin")
    could = None
    run.sim.probes["reads in a transaction"] += 1
    for j in range(2 + w.ch.sub(name).draw(4)):
        o = w.ch.sub(f"{name}{j}")
        k0 = wt.n() - 1
        rd = gen_read(o, wt.states[max(0, wt.n() - 1 - o.biased(3, 0.4))][0])
        if j and o.flag(0.7) and busy():
            lib.stall(run, o, wt, 2)
        ok, r = run.call(str(rd), rd.fn, my)
        wt.poll("x")
        if could is None:
            could = list(range(k0, wt.n()))
        was = could
        could = [k for k in could if (rd.match(wt.states[k][0], r) if ok else rd.may_raise(wt.states[k][0]))]
        run.note(f"{name}: {rd} in a transaction -> {str(r)[:80]}; states {could}")
        if not could:
            run.fail("reads of a transaction from different states", f"{rd} answered {str(r)[:300]}, earlier reads in the same transaction were of state {was}: "
                     + " | ".join(f"{k}: {wt.states[k][0].content()[1]} {wt.states[k][0].model()[0]}" for k in was)[:700])
        if not my.db.in_transaction:
            run.fail("reads of a transaction from different states", f"{rd} ended the caller's transaction")
        if was[-1] < wt.n() - 1:
            run.sim.probes["transaction read an old state"] += 1
            run.w.nontrivial = True
    run.must("rollback", my.db.execute, "rollback")


# ---------------------------------------------------------------- C12


def jaccard(a, b):
    u = len(a | b)
    return len(a & b) / u if u else 0.0


def near(a, b):
    return abs(a - b) <= 1e-9


def check_pivot(s, query, chosen, top_k, got):
    q = frozenset(query)
    want = {c: jaccard(q, s.cdocs[c]) for c in chosen if q & s.cdocs[c]}
    ids = [r[0] for r in got]
    if sorted(ids) != sorted(want):
        return f"clusters {ids}, overlapping are {sorted(want)}"
    sims = [r[1] for r in got]
    if any(not near(x, want[c]) for c, x in zip(ids, sims)):
        return f"similarities {list(zip(ids, sims))}, are {want}"
    if any(a < b - 1e-9 for a, b in zip(sims, sims[1:])):
        return f"clusters not by decreasing similarity: {list(zip(ids, sims))}"
    for c, _, feats in got:
        best = sorted((x for f in s.members[c] if (x := jaccard(q, s.docs[f])) > 0), reverse=True)[:top_k]
        if len(feats) != len(best) or len({f[0] for f in feats}) != len(feats):
            return f"cluster {c}: {len(feats)} features {feats}, best are {best}"
        if any(not near(f[3], b) for f, b in zip(feats, best)):
            return f"cluster {c}: features {feats}, best similarities {best}"
        for fid, field, value, sim in feats:
            if fid not in s.members[c] or s.feats[fid] != (field, value) or not near(sim, jaccard(q, s.docs[fid])):
                return f"cluster {c}: feature {(fid, field, value, sim)} is wrong"
    return None


def check_graph(s, graph, top_k, with_field, labels=True):
    if sorted(graph.nodes) != sorted(s.clusters):
        return f"nodes {sorted(graph.nodes)}, clusters {sorted(s.clusters)}"
    for c, data in graph.nodes(data=True):
        if data.get("document_count") != s.clusters[c][2]:
            return f"cluster {c}: document_count {data.get('document_count')}, is {s.clusters[c][2]}"
        if not labels:
            continue
        rows = sorted(((s.fc[f][1], s.feats[f]) for f in s.members[c]), key=lambda r: -r[0])
        k = min(top_k, len(rows))
        names = collections.defaultdict(list)
        for n, (field, value) in rows:
            names[f"{field}:{value}" if with_field else str(value)].append(n)
        label = data.get("label")
        parts = label.split(", ") if k else [p for p in [label] if p]
        if len(parts) != k or any(p not in names for p in parts):
            return f"cluster {c}: label {label!r}"
        want = sorted(n for n, _ in rows[:k])
        if not with_field or any(len(names[p]) > 1 for p in parts):
            continue    # the label does not tell 1 from "1"
        got = sorted(names[p][0] for p in parts)
        if len(set(parts)) != k or got != want:
            return f"cluster {c}: label {label!r}, counts {got}, best {want}"
    want = {}
    cs = sorted(s.clusters)
    for i, a in enumerate(cs):
        for b in cs[i + 1:]:
            if s.cdocs[a] & s.cdocs[b]:
                want[(a, b)] = jaccard(s.cdocs[a], s.cdocs[b])
    got = {(min(a, b), max(a, b)): d.get("weight") for a, b, d in graph.edges(data=True)}
    if set(got) != set(want) or any(not near(got[e], want[e]) for e in want):
        return f"edges {got}, are {want}"
    return None


def gen_query(g, s):
    k = g.draw(4)
    if k == 0 and s.feats:
        return BitMap(frozenset().union(*(s.docs[f] for f in g.sample(sorted(s.feats), 1 + g.draw(3)))))
    if k == 1 and s.clusters:
        return BitMap(s.cdocs[g.pick(sorted(s.clusters))])
    if k == 2 and g.flag(0.3):
        return BitMap()
    return BitMap(g.sample(sorted(s.keys), 1 + g.draw(len(s.keys))))


def c12(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path, pool, corpus, box, store, idx = setup(run, g, max_docs=14, n_clusters=2 + g.draw(6), edits=g.draw(3))
    wt = run.watch(path)
    s = wt.last
    for i in range(3 + g.draw(4)):
        o = run.opg("q")
        if o.flag(0.2):
            # the index moves on between two queries of the same object
            if o.flag(0.3):
                box.store = corpora.gen_store(o, max_docs=12, prev=box.store)
                kw = gen_index_args(o, w, allow_dir=False)
                run.note(f"index({kw})")
                run.must("index", idx.index, **kw)
            else:
                op = lib.gen_edit(o, s)
                other = idx if o.flag(0.5) else run.reopen(path, corpus, pool)
                ok, r = run.call(str(op), op.call, other)
                run.note(f"{op} -> {'ok' if ok else type(r).__name__}")
                if other is not idx:
                    other.close()
            wt.poll("x")
            s = wt.last
        n0 = wt.n()
        armed = []
        if o.flag(0.35):
            armed.append(lib.arm(run, run.opg("fault"), o.pick(lib.WORKER_KINDS)))
        slow_batches(run, o)
        rest = None
        tasks = []
        if o.flag(0.15):
            # an answer that is read while other queries are asked
            q0 = gen_query(o, s)
            k0 = 1 + o.draw(3)
            n = o.draw(3)
            ok, it = run.call("pivot_clusters_by_query", lambda: iter(idx.pivot_clusters_by_query(q0, top_k=k0)))
            got0 = []
            bad0 = None if ok else it
            try:
                while bad0 is None and len(got0) < n:
                    got0.append(next(it))
            except StopIteration:
                pass
            except Exception as x:
                bad0 = x
            rest = (q0, k0, it, got0, bad0)
        if o.flag(0.15) and s.clusters:
            o2 = run.opg("q2")
            tasks.append(run.client(lambda: other_query(run, o2, path, corpus, pool, s, armed), "other"))
        label, ok, r, e, big = ask(run, o, idx, s)
        if rest is not None:
            q0, k0, it, got0, bad0 = rest
            l0 = f"pivot_clusters_by_query({list(q0)}, top_k={k0}) read around {label}"
            try:
                if bad0 is None:
                    got0 += list(it)
            except Exception as x:
                bad0 = x
            if bad0 is None:
                e0 = check_pivot(s, q0, sorted(s.clusters), k0, got0)
                if e0:
                    run.fail("query answered wrongly", f"{l0}: {e0}")
            elif not any(a.fired for a in armed):
                run.fail("query raised without a fault", f"{l0}: {type(bad0).__name__}: {bad0}")
        run.join(tasks)
        fired = [a for a in armed if a.fired]
        lib.disarm(run)
        run.note(f"{label} -> {'answered' if ok else type(r).__name__ + ': ' + str(r)[:80]}{' fired ' + fired[0].kind if fired else ''}")
        if e:
            run.fail("query answered wrongly" + (" after losing a task" if fired else ""), f"{label}: {e}")
        if not ok and not fired:
            run.fail("query raised without a fault", f"{label}: {type(r).__name__}: {r}")
        if fired or big > 1:
            w.nontrivial = True
        if fired:
            settle(run, pool)
        if pool._broken:
            idx.close()
            pool = SimPool(1 + o.draw(3))
            idx = run.must("Index", run.index, path, corpus, pool)
        wt.poll("x")
        if wt.n() > n0:
            run.fail("query changed the index", wt.states[n0 - 1][0].diff(wt.last))
    idx.close()
    wt.close()


def ask(run, o, idx, s):
    "One query that uses the pool: label, ok, answer, error, size of the answer."
    kind = o.draw(3)
    top_k = 1 + o.draw(5)
    big = 0
    if kind == 0:
        q = gen_query(o, s)
        ids = o.sample(sorted(s.clusters), 1 + o.draw(4)) if o.flag(0.4) else None
        label = f"pivot_clusters_by_query({list(q)}, {ids}, top_k={top_k})"
        ok, r = run.call(label, lambda: list(idx.pivot_clusters_by_query(q, cluster_ids=ids, top_k=top_k)))
        e = ok and check_pivot(s, q, ids or sorted(s.clusters), top_k, r)
        big = len(r) if ok else 0
    elif kind == 1:
        wf = bool(o.flag(0.7))
        label = f"create_cluster_cooccurrence_graph({top_k}, {wf})"
        ok, r = run.call(label, lambda: idx.create_cluster_cooccurrence_graph(top_k=top_k, include_field_in_label=wf))
        e = ok and check_graph(s, r, top_k, wf)
        big = len(s.clusters)
    else:
        rd = gen_read(o, s, weights=[1 if x == "intersect_queries_with_field" else 0 for x in READS])
        label = str(rd)
        ok, r = run.call(label, rd.fn, idx)
        e = ok and not rd.match(s, r) and f"answered {str(r)[:200]}"
    return label, ok, r, e, big


def other_query(run, o, path, corpus, pool, s, armed):
    "Somebody else asks through the same pool at the same time."
    idx = run.reopen(path, corpus, pool)
    for _ in range(1 + o.draw(2)):
        label, ok, r, e, big = ask(run, o, idx, s)
        run.note(f"at the same time: {label} -> {'answered' if ok else type(r).__name__}")
        if e:
            run.fail("query answered wrongly", f"at the same time: {label}: {e}")
        if not ok and not any(a.fired for a in armed):
            run.fail("query raised without a fault", f"at the same time: {label}: {type(r).__name__}: {r}")
    idx.close()


# ---------------------------------------------------------------- C13


def passages_of(store, keys, field, clauses, window):
    "The definition, document by document."
    out = {}
    for d, k in keys.items():
        toks = store.fields(k).get(field, ())
        if not isinstance(toks, (list, tuple)):
            continue
        at = [[i for i, t in enumerate(toks) if t in c] for c in clauses]
        if any(not a for a in at):
            continue
        pos = sorted({
            p for a in at for p in a
            if all(any(abs(p - q) <= window for q in b) for b in at)
        })
        runs = []
        for p in pos:
            if runs and p - runs[-1][-1] <= window:
                runs[-1].append(p)
            else:
                runs.append([p])
        if runs:
            out[d] = [(field, r[0], r[-1], len(r)) for r in runs]
    return out


def collocations_of(store, keys, field, values, window):
    counts = collections.Counter()
    totals = collections.Counter()
    nq = nw = 0
    for k in keys.values():
        toks = store.fields(k).get(field, ())
        if not isinstance(toks, (list, tuple)):
            continue
        hits = [i for i, t in enumerate(toks) if t in values]
        win = {p for h in hits for p in range(max(0, h - window), min(len(toks), h + window + 1))}
        nq += len(hits)
        nw += len(win)
        for i, t in enumerate(toks):
            if t not in values:
                totals[t] += 1
                counts[t] += i in win
    return counts, totals, nq, nw


def c13(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path = run.path("i.db")
    pool = run.pool()
    store = corpora.gen_store(g, max_docs=9, min_docs=1, long=True)
    corpus, box = corpora.make_corpus(sim, store)
    with run.calm():
        idx = run.index(path, corpus, pool)
        idx.index(doc_batch_size=1 + g.draw(6), index_positions=True)
    wt = run.watch(path)
    for i in range(3 + g.draw(5)):
        o = run.opg("q")
        s = wt.last
        if o.flag(0.15):
            kw = {"doc_batch_size": 1 + o.draw(6), "index_positions": True}
            if o.flag(0.5):
                store = box.store = corpora.gen_store(o, max_docs=9, prev=store, long=True)
            run.note(f"index({kw})")
            run.must("index", idx.index, **kw)
            wt.poll("x")
            s = wt.last
        keys = {n: k for n, k in enumerate(store.order)}
        seq = sorted(f for f, v in s.feats.items() if v[0] in ("text", "title", "ref") and s.docs[f])
        if not seq:
            continue
        armed = []
        if o.flag(0.25):
            armed.append(lib.arm(run, run.opg("fault"), o.pick(lib.WORKER_KINDS)))
        slow_batches(run, o)
        window = o.draw(5)
        kind = o.draw(3)
        if kind < 2:
            clauses = []
            for _ in range(1 + o.weighted([4, 5, 3, 2, 1])):
                c = o.sample(seq, 1 + (o.draw(14) if o.flag(0.2) else o.draw(3)))
                if o.flag(0.5):
                    c = [s.feats[f] for f in c]
                if o.flag(0.1):
                    c.append(o.pick(sorted(s.feats)))
                clauses.append(c)
            want = collections.defaultdict(list)
            per = collections.defaultdict(list)
            for c in clauses:
                fields = collections.defaultdict(set)
                for f in c:
                    field, value = s.feats[f] if isinstance(f, int) else f
                    fields[field].add(value)
                for field, values in fields.items():
                    per[field].append(values)
            for field, cs in per.items():
                for d, ps in passages_of(store, keys, field, cs, window).items():
                    want[d] += ps
            label = f"score_passages_dnf({clauses}, {window})"
            ok, r = run.call(label, idx.score_passages_dnf, clauses, window)
            got = {d: sorted(tuple(p) for p in ps) for d, ps in r.items() if ps} if ok else None
            want = {d: sorted(ps) for d, ps in want.items()}
            e = ok and got != want and f"answered {got}, expected {want}"
            if ok and not e and want:
                w.nontrivial = True
                if kind == 1:
                    fired = [a for a in armed if a.fired]
                    if fired:
                        settle(run, pool)
                    e = check_render(run, o, idx, pool, store, keys, r, want, armed)
                    label = "render_passages_table after " + label
        else:
            field = "text" if o.flag(0.8) else ["title", "ref"][o.draw(2)]
            fs = [f for f in seq if s.feats[f][0] == field]
            fs = o.sample(fs, 1 + (o.draw(14) if o.flag(0.2) else o.draw(3)))
            if not fs:
                lib.disarm(run)
                continue
            counts, totals, nq, nw = collocations_of(store, keys, field, {s.feats[f][1] for f in fs}, window)
            label = f"count_collocations({field!r}, {fs}, {window})"
            ok, r = run.call(label, idx.count_collocations, field, fs, window)
            e = None
            if ok:
                got, q, v = r
                byval = {s.feats[f]: tuple(x) for f, x in got.items()}
                wrong = [k for k in byval if k[0] != field or k[1] not in totals]
                if wrong:
                    e = f"counts {wrong}, not features of {field} beside the query"
                elif (q, v) != (nq, nw):
                    e = f"{q} query positions and {v} in windows, are {nq} and {nw}"
                else:
                    for t in totals:
                        c = byval.get((field, t), (0, totals[t]))
                        if c != (counts[t], totals[t]):
                            e = f"{t!r}: {c}, is {(counts[t], totals[t])}"
                if nw:
                    w.nontrivial = True
        fired = [a for a in armed if a.fired]
        lib.disarm(run)
        run.note(f"{label} -> {'answered' if ok else type(r).__name__ + ': ' + str(r)[:80]}{' fired ' + fired[0].kind if fired else ''}")
        if e:
            run.fail(("passages" if kind < 2 else "collocations") + " wrong" + (" after losing a task" if fired else ""), f"{label}: {e}")
        if not ok and not fired:
            run.fail("query raised without a fault", f"{label}: {type(r).__name__}: {r}")
        if fired:
            w.nontrivial = True
            settle(run, pool)
        if pool._broken:
            idx.close()
            pool = SimPool(1 + o.draw(3))
            idx = run.must("Index", run.index, path, corpus, pool)
    idx.close()
    wt.close()


def check_render(run, o, idx, pool, store, keys, scored, want, armed):
    over = o.draw(4)
    bs = 1 + o.draw(3)
    ok, r = run.call("render_passages_table", lambda: list(idx.render_passages_table(scored, passage_overhang=over, batch_size=bs)))
    fired = [a for a in armed if a.fired]
    if not ok:
        return None if fired else f"raised {type(r).__name__}: {r}"
    if sorted(x[0] for x in r) != sorted(want):
        return f"documents {sorted(x[0] for x in r)}, passages are in {sorted(want)}"
    for d, key, row in r:
        if key != keys[d]:
            return f"document {d} has key {key}, is {keys[d]}"
        fields = store.fields(keys[d])
        for field in {p[0] for p in want[d]}:
            toks = fields[field]
            texts = sorted(" ".join(str(t) for t in toks[max(0, p[1] - over):p[2] + over + 1]) for p in want[d] if p[0] == field)
            if sorted(row.get(field, ())) != texts:
                return f"document {d}, {field}: {row.get(field)}, expected {texts}"
        for field, values in fields.items():
            if isinstance(values, (set, frozenset)) and set(row.get(field, ())) != set(values):
                return f"document {d}, {field}: {row.get(field)}, is {values}"
    return None


# ---------------------------------------------------------------- C19


def c19(w):
    run = Run(w)
    g = run.g
    sim = w.sim
    path, pool, corpus, box, store, idx = setup(run, g, max_docs=14, n_clusters=1 + g.draw(6), edits=g.draw(3))
    wt = run.watch(path)
    stop = []
    tasks = []
    if g.flag(0.6):
        def editor():
            my = run.reopen(path, None, pool)
            for i in range(2 + g.draw(5)):
                if stop:
                    break
                o = w.ch.sub(f"ed{i}")
                op = lib.gen_edit(o, wt.last, weights=(6, 5, 3, 3, 2, 2, 2, 1))
                ok, r = run.call(str(op), op.call, my)
                run.note(f"editor: {op} -> {'ok' if ok else type(r).__name__}")
                wt.poll("x")
            my.close()
        tasks.append(run.client(editor, "editor"))
    for i in range(2 + g.draw(4)):
        o = run.opg("s")
        n = [0, 1, 2, 3, 100][o.draw(5)]
        s0 = wt.last
        ids = o.sample(sorted(s0.clusters), 1 + o.draw(4)) if o.flag(0.4) else None
        if ids and o.flag(0.1):
            ids.append(987)
        k0 = wt.n() - 1
        if tasks and o.flag(0.3):
            lib.stall(run, o, wt, 20)
        label = f"structured_doc_sample({n}, {ids})"
        out = run.must(label, idx.structured_doc_sample, docs_per_cluster=n, cluster_ids=ids)
        wt.poll("x")
        k1 = wt.n() - 1
        errs = [judge_sample(wt.states[k][0], out, n, ids) for k in range(k0, k1 + 1)]
        if None not in errs:
            run.fail("sample wrong", f"{label} in states {k0}..{k1}: {errs[0]}")
        total = sum(len(b) for b in out[0].values())
        run.note(f"{label} -> {total} documents, states {k0}..{k1}")
        if total > 1:
            w.nontrivial = True
        if not o.flag(0.7):
            continue
        # export
        dest = run.path(f"out{i}.csv")
        ok, r = run.call("export_document_sample", idx.export_document_sample, dict(out[0]), out[1], dest)
        if not ok:
            run.fail("export raised", f"{type(r).__name__}: {r}")
        e = judge_export(dest, store, corpus, out)
        run.note(f"export_document_sample -> {e or 'right'}")
        if e:
            run.fail("export wrong", e)
    stop.append(1)
    run.join(tasks)
    idx.close()
    wt.close()


def judge_export(dest, store, corpus, out):
    samples, flags = out
    with open(dest, encoding="utf-8", newline="") as f:
        rows = list(csv.DictReader(f))
    keys = {n: k for n, k in enumerate(store.order)}
    want = {}
    for c, b in samples.items():
        for d in b:
            want[str(keys[d])] = (d, c)
    if sorted(r.get("doc_key") for r in rows) != sorted(want):
        return f"rows for {sorted(str(r.get('doc_key')) for r in rows)}, sampled {sorted(want)}"
    for r in rows:
        d, c = want[r["doc_key"]]
        if r.get("sampled_cluster") != str(c):
            return f"document {d}: sampled_cluster {r.get('sampled_cluster')}, is {c}"
        text = " ".join(str(x) for x in store.fields(keys[d]).get("text", ()))
        if r.get("text") != text:
            return f"document {d}: text {r.get('text')!r}, is {text!r}"
        on = {k[8:] for k, v in r.items() if k and k.startswith("cluster_") and v not in ("", None)}
        if on != {str(k) for k, b in flags.items() if d in b}:
            return f"document {d}: flags {sorted(on)}, is in {sorted(k for k, b in flags.items() if d in b)}"
    return None
