"""
What the checks compare against: snapshots of the committed state of an index,
the invariants every one of them must satisfy, and a small executable model of
what indexing, editing and reading are documented to do.
"""

import collections
import sqlite3

from pyroaring import BitMap

from env import real_connect, oracle
from kernel import Violation


def sql_order(v):
    "Numbers come before texts, and those before bytes."
    return (2 if isinstance(v, bytes) else 1 if isinstance(v, str) else 0), v


def bm(b):
    return tuple(BitMap.deserialize(b)) if b is not None else None


class Snap:
    """The committed content of an index database, decoded."""

    def __init__(self, rows):
        self.raw = rows
        keys, feats, pos, hdr, fsum, clus, fc = rows
        self.keys = dict(keys)
        self.feats = {r[0]: (r[1], r[2]) for r in feats}
        self.fcount = {r[0]: r[3] for r in feats}
        self.docs = {r[0]: frozenset(bm(r[4])) for r in feats}
        self.fsum = {r[0]: tuple(r[1:]) for r in fsum}
        self.clusters = {r[0]: r for r in clus}  # cid, fcount, dcount, weight, docs, pinned
        self.cdocs = {r[0]: (frozenset(bm(r[4])) if r[4] is not None else None) for r in clus}
        self.fc = {r[0]: (r[1], r[2], int(r[3] or 0)) for r in fc}
        self.members = collections.defaultdict(set)
        for f, (c, _, _) in self.fc.items():
            self.members[c].add(f)
        self.members = dict(self.members)
        self.pinned_c = frozenset(r[0] for r in clus if r[5])
        self.pinned_f = frozenset(f for f, v in self.fc.items() if v[2])
        self._pos = None
        self._model = None

    # -- canonical parts used for equality

    def model(self):
        if self._model is None:
            self._model = (
                tuple(sorted((c, tuple(sorted(m))) for c, m in self.members.items())),
                tuple(sorted(self.pinned_c)),
                tuple(sorted(self.pinned_f)),
                tuple(
                    sorted(
                        (r[0], r[1], r[2], r[3], tuple(sorted(self.cdocs[r[0]] or ())))
                        for r in self.raw[5]
                    )
                ),
                tuple(sorted((f, v[1]) for f, v in self.fc.items())),
            )
        return self._model

    def positions(self):
        """{field: {doc_id: (tokens...)}} as the positional index stores it, or an error string."""
        if self._pos is None:
            self._pos = self._decode_positions()
        return self._pos

    def _decode_positions(self):
        parts = {}
        out = collections.defaultdict(dict)
        slots = {}
        for field, first, last, n, docs, bounds in self.raw[3]:
            d, b = bm(docs), bm(bounds)
            if len(d) != n or len(b) != len(d) + 1 or b[0] != 0:
                return f"bad partition header {(field, first, last, n, d, b)}"
            if any(not first <= x <= last for x in d):
                return f"partition {(field, first, last)} holds documents {d}"
            parts[(field, first)] = (d, b)
            slots[(field, first)] = [None] * b[-1]
        for fid, first, n, positions in self.raw[2]:
            if fid not in self.feats:
                return f"positions for unknown feature {fid}"
            field, value = self.feats[fid]
            p = bm(positions)
            if len(p) != n:
                return f"position count {n} of {field}={value!r} but {len(p)} positions"
            sl = slots.get((field, first))
            if sl is None:
                return f"positions without partition {(field, first)}"
            for x in p:
                if x >= len(sl):
                    return f"position {x} beyond partition {(field, first)}"
                if sl[x] is not None:
                    return f"two values at position {x} of {(field, first)}"
                sl[x] = value
        for (field, first), (d, b) in parts.items():
            sl = slots[(field, first)]
            for i, doc in enumerate(d):
                if doc in out[field]:
                    return f"document {doc} in two partitions of {field}"
                out[field][doc] = tuple(sl[b[i]:b[i + 1]])
        return {f: v for f, v in out.items() if v}

    def content(self):
        "The index content by value, not by feature id."
        return (
            tuple(sorted(self.keys.items(), key=repr)),
            tuple(
                sorted(
                    ((f, v, tuple(sorted(self.docs[i]))) for i, (f, v) in self.feats.items() if self.docs[i]),
                    key=repr,
                )
            ),
        )

    def sig(self):
        "Everything observable, canonically."
        p = self.positions()
        return (
            self.content(),
            tuple(sorted((i, f, repr(v), self.fcount[i], tuple(sorted(self.docs[i]))) for i, (f, v) in self.feats.items())),
            self.model(),
            p if isinstance(p, str) else tuple((f, tuple(sorted(d.items()))) for f, d in sorted(p.items())),
            tuple(sorted(self.fsum.items(), key=repr)),
        )

    def __eq__(self, other):
        return self is other or self.raw == other.raw or self.sig() == other.sig()

    def __hash__(self):
        return hash(len(self.raw[0]))

    def diff(self, other):
        "A short account of where two snapshots differ."
        out = []
        a, b = self.sig(), other.sig()
        for name, x, y in zip(("content", "features", "model", "positions", "summary"), a, b):
            if x != y:
                out.append(f"{name}: {_short_diff(x, y)}")
        return "; ".join(out)[:600]


def _short_diff(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) == len(y):
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return f"[{i}] {_short_diff(p, q)}"
        return f"{str(x)[:160]} != {str(y)[:160]}"
    return f"{str(x)[:160]} != {str(y)[:160]}"


QUERIES = (
    "select doc_id, doc_key from doc_key order by doc_id",
    "select feature_id, field, value, docs_count, doc_ids from inverted_index order by feature_id",
    "select feature_id, first_doc_id, position_count, positions from position_index order by 1, 2",
    "select field, first_doc_id, last_doc_id, docs_count, doc_ids, doc_boundaries from position_doc_map order by 1, 2",
    "select field, distinct_values, min_value, max_value, position_count from field_summary order by field",
    "select cluster_id, feature_count, docs_count, weight, doc_ids, pinned from cluster order by cluster_id",
    "select feature_id, cluster_id, docs_count, pinned from feature_cluster order by feature_id",
)


def read_snap(con):
    con.execute("begin")
    try:
        s = Snap([con.execute(q).fetchall() for q in QUERIES])
        s.settings = dict(con.execute("select key, value from settings"))
        return s
    finally:
        con.execute("rollback")


def open_probe(path):
    con = real_connect(path, isolation_level=None, check_same_thread=False, timeout=0)
    con.setconfig(sqlite3.SQLITE_DBCONFIG_NO_CKPT_ON_CLOSE, True)
    return con


class Watcher:
    """
    Follows one index database: after every statement of the code under test
    that leaves its connection outside a transaction, a look at data_version
    tells whether something was committed; if so the new state is recorded.
    """

    def __init__(self, sim, vfs, path, check=None, read=read_snap):
        self.sim = sim
        self.vfs = vfs
        self.path = path
        self.read = read
        self.check = check
        self.states = []   # (snap, task name, op, step, vfs op count)
        self.bounds = []   # oplog length bounds (before the committing statement, after)
        with oracle():
            self.con = open_probe(path)
            self.version = self._version()
            self.states.append((self._read(), "-", "-", 0))
        self.bounds.append((0, 0))
        self.last_len = 0
        sim.watchers.append(self)

    def _version(self):
        return self.con.execute("pragma data_version").fetchone()[0]

    def _read(self):
        return self.read(self.con)

    def oplen(self):
        return len(self.vfs.oplog) if self.vfs.oplog is not None else 0

    def poll(self, head):
        from kernel import this_task
        t = this_task()
        name, op = (t.name, t.op) if t else ("-", None)
        with oracle():
            try:
                v = self._version()
                if v == self.version:
                    self.last_len = self.oplen()
                    return
                s = self._read()
            except sqlite3.OperationalError as e:
                if "locked" in str(e):
                    return  # a statement is still changing the journal mode: look again later
                raise
            self.version = v
        if s.raw == self.states[-1][0].raw:
            self.last_len = self.oplen()
            return
        self.states.append((s, name, op, self.sim.steps))
        self.bounds.append((self.last_len, self.oplen()))
        self.last_len = self.oplen()
        self.sim.event("COMMIT", f"{op} #{len(self.states) - 1}")
        self.sim.probes["commits observed"] += 1
        if self.check is not None:
            self.check(self, len(self.states) - 1)

    @property
    def last(self):
        return self.states[-1][0]

    def n(self):
        return len(self.states)

    def allowed_at(self, upto):
        "States a kill just before file operation `upto` may leave."
        out = []
        for k, (lo, hi) in enumerate(self.bounds):
            nxt = self.bounds[k + 1] if k + 1 < len(self.bounds) else None
            if lo <= upto and (nxt is None or upto <= nxt[1]):
                out.append(k)
        return out

    def close(self):
        with oracle():
            self.con.close()
        if self in self.sim.watchers:
            self.sim.watchers.remove(self)


def install_watch(sim):
    sim.watchers = []

    def hook(head):
        for w in sim.watchers:
            w.poll(head)

    sim.commit_hook = hook


# ---------------------------------------------------------------- invariants


def check_summaries(s):
    "C06 on one committed state; an error string or None."
    for c, r in s.clusters.items():
        feats = s.members.get(c)
        if not feats:
            return f"cluster {c} has no features"
        if r[1] != len(feats):
            return f"cluster {c}: stored feature count {r[1]}, has {len(feats)}"
        unknown = feats - s.docs.keys()
        if unknown:
            return f"cluster {c} holds features {sorted(unknown)} not in the index"
        docs = frozenset().union(*(s.docs[f] for f in feats))
        if s.cdocs[c] is None or s.cdocs[c] != docs:
            return f"cluster {c}: stored documents {sorted(s.cdocs[c] or ())}, features retrieve {sorted(docs)}"
        if r[2] != len(docs):
            return f"cluster {c}: stored document count {r[2]}, has {len(docs)}"
        w = sum(len(s.docs[f]) for f in feats)
        if r[3] != w:
            return f"cluster {c}: stored weight {r[3]}, is {w}"
    for f, (c, n, _) in s.fc.items():
        if c not in s.clusters:
            return f"feature {f} is in cluster {c}, which does not exist"
        if n != len(s.docs[f]):
            return f"feature {f}: document count in model {n}, retrieves {len(s.docs[f])}"
    return None


def check_counts(s):
    "Recorded document counts; positions well formed."
    for f, d in s.docs.items():
        if s.fcount[f] != len(d):
            return f"feature {s.feats[f]}: recorded count {s.fcount[f]}, retrieves {len(d)}"
        if any(x not in s.keys for x in d):
            return f"feature {s.feats[f]} retrieves unknown documents {sorted(d)}"
    p = s.positions()
    if isinstance(p, str):
        return p
    seen = {}
    for f, v in s.feats.items():
        if v in seen:
            return f"feature {v} has two ids"
        seen[v] = f
    return None


def expected_content(store, positions):
    """The specification of indexing: what a corpus must be answered from."""
    keys = {i: k for i, k in enumerate(store.order)}
    feats = collections.defaultdict(set)
    pos = collections.defaultdict(dict)
    for i, k in keys.items():
        for field, values in store.fields(k).items():
            if positions and isinstance(values, (list, tuple)) and values:
                pos[field][i] = tuple(values)
            for v in set(values):
                if v is not None:
                    feats[(field, v)].add(i)
    return keys, {k: frozenset(v) for k, v in feats.items()}, {k: v for k, v in pos.items()}


def check_index(s, store, positions):
    "C01: the snapshot answers exactly for the corpus."
    keys, feats, pos = expected_content(store, positions)
    if s.keys != keys:
        return f"documents {str(s.keys)[:200]}, corpus has {str(keys)[:200]}"
    got = {}
    for f, v in s.feats.items():
        if v in got:
            return f"feature {v} twice"
        got[v] = s.docs[f]
        if s.fcount[f] != len(s.docs[f]):
            return f"feature {v}: recorded count {s.fcount[f]}, retrieves {len(s.docs[f])}"
    for v, d in feats.items():
        if got.get(v, frozenset()) != d:
            return f"feature {v} retrieves {sorted(got.get(v, ()))}, is in {sorted(d)}"
    for v, d in got.items():
        if d and v not in feats:
            return f"feature {v} retrieves {sorted(d)}, is in none"
    p = s.positions()
    if isinstance(p, str):
        return p
    if p != pos:
        return f"positions {_pos_diff(p, pos)}"
    # field summary: over all known features or over those that occur
    for all_feats in (True, False):
        want = {}
        for f, (field, value) in s.feats.items():
            if all_feats or s.docs[f]:
                want.setdefault(field, []).append(value)
        want = {
            field: (len(vs), min(vs, key=sql_order), max(vs, key=sql_order), sum(len(t) for t in pos.get(field, {}).values()))
            for field, vs in want.items()
        }
        if want == s.fsum:
            return None
    return f"field summary {s.fsum}, expected {want}"


def _pos_diff(p, q):
    for f in sorted(set(p) | set(q)):
        a, b = p.get(f, {}), q.get(f, {})
        for d in sorted(set(a) | set(b)):
            if a.get(d) != b.get(d):
                return f"of {f} in document {d}: {a.get(d)}, corpus has {b.get(d)}"
    return "?"


def all_invariants(s):
    return check_counts(s) or check_summaries(s)


# ---------------------------------------------------------------- model edits


class M:
    "The editable part: clusters, pins."

    def __init__(self, clusters, pinned_c, pinned_f):
        self.clusters = {c: set(f) for c, f in clusters.items() if f}
        self.pinned_c = {c for c in pinned_c if c in self.clusters}
        fs = set().union(*self.clusters.values()) if self.clusters else set()
        self.pinned_f = {f for f in pinned_f if f in fs}

    @classmethod
    def of(cls, s):
        return cls(s.members, s.pinned_c, s.pinned_f)

    def copy(self):
        return M(self.clusters, self.pinned_c, self.pinned_f)

    def cluster_of(self, f):
        for c, fs in self.clusters.items():
            if f in fs:
                return c
        return None

    def features(self):
        return {f for fs in self.clusters.values() for f in fs}

    def prune(self):
        return M(self.clusters, self.pinned_c, self.pinned_f)

    def key(self):
        return (
            tuple(sorted((c, tuple(sorted(f))) for c, f in self.clusters.items())),
            tuple(sorted(self.pinned_c)),
            tuple(sorted(self.pinned_f)),
        )

    def __eq__(self, o):
        return self.key() == o.key()


class Op:
    """One editing call: name, arguments, and what it must do."""

    def __init__(self, name, args=(), kwargs=None):
        self.name = name
        self.args = args
        self.kwargs = kwargs or {}

    def __repr__(self):
        a = [repr(x) for x in self.args] + [f"{k}={v!r}" for k, v in self.kwargs.items()]
        return f"{self.name}({', '.join(a)})"[:200]

    def call(self, idx):
        import copy
        return getattr(idx, self.name)(*copy.deepcopy(self.args), **copy.deepcopy(self.kwargs))

    def check(self, s0, s1, ret):
        "Does going from snapshot s0 to s1, returning ret, satisfy the specification?"
        if s0.content() != s1.content() or s0.feats != s1.feats:
            return f"{self}: changed the index content"
        m0, m1 = M.of(s0), M.of(s1)
        return getattr(self, "_" + self.name)(s0, m0, m1, ret)

    def raises(self, s0):
        "Must this call raise (invalid arguments) on s0?"
        if self.name == "create_cluster_from_features":
            return any(f not in s0.feats for f in self.args[0])
        if self.name == "merge_clusters":
            return not self.args[0]
        return False

    def _same(self, m0, m1, want):
        if m1 != want:
            return f"{self}: from {m0.key()} expected {want.key()}, got {m1.key()}"

    def _create_cluster_from_features(self, s0, m0, m1, ret):
        fids = set(self.args[0])
        if not isinstance(ret, int):
            return f"{self}: returned {ret!r}"
        if ret in s0.clusters or (s0.clusters and ret <= max(s0.clusters)):
            return f"{self}: returned id {ret} clashes with {sorted(s0.clusters)}"
        want = m0.copy()
        for c in want.clusters:
            want.clusters[c] -= fids
        if fids:
            want.clusters[ret] = set(fids)
        return self._same(m0, m1, want.prune())

    def _merge_clusters(self, s0, m0, m1, ret):
        ids = self.args[0]
        if ret != ids[0]:
            return f"{self}: returned {ret}"
        want = m0.copy()
        for c in ids[1:]:
            if c in want.clusters and c != ids[0]:
                want.clusters.setdefault(ids[0], set())
                want.clusters[ids[0]] |= want.clusters.pop(c)
        return self._same(m0, m1, want.prune())

    def _delete_clusters(self, s0, m0, m1, ret):
        want = m0.copy()
        for c in self.args[0]:
            want.clusters.pop(c, None)
        return self._same(m0, m1, want.prune())

    def _delete_features(self, s0, m0, m1, ret):
        want = m0.copy()
        for c in want.clusters:
            want.clusters[c] -= set(self.args[0])
        return self._same(m0, m1, want.prune())

    def _pin_features(self, s0, m0, m1, ret):
        want = m0.copy()
        on = self.args[1] if len(self.args) > 1 else self.kwargs.get("pinned", True)
        fs = set(self.args[0]) & m0.features()
        want.pinned_f = (want.pinned_f | fs) if on else (want.pinned_f - fs)
        return self._same(m0, m1, want)

    def _pin_clusters(self, s0, m0, m1, ret):
        want = m0.copy()
        on = self.args[1] if len(self.args) > 1 else self.kwargs.get("pinned", True)
        cs = set(self.args[0]) & set(m0.clusters)
        want.pinned_c = (want.pinned_c | cs) if on else (want.pinned_c - cs)
        return self._same(m0, m1, want)

    def _initialise_clusters(self, s0, m0, m1, ret):
        n = self.args[0] if self.args else self.kwargs["n_clusters"]
        min_docs = self.kwargs.get("min_docs", 1)
        fields = self.kwargs.get("include_fields")
        want = {
            f for f, (field, _) in s0.feats.items()
            if len(s0.docs[f]) >= min_docs and (not fields or field in fields)
        }
        if m1.features() != want:
            return f"{self}: features in the model {sorted(m1.features())}, asked for {sorted(want)}"
        if any(not 0 <= c < n for c in m1.clusters):
            return f"{self}: cluster ids {sorted(m1.clusters)}"
        if m1.pinned_c or m1.pinned_f:
            return f"{self}: pins survive"

    def _refine_clusters(self, s0, m0, m1, ret):
        return check_refine(self, m0, m1)


def check_refine(op, m0, m1):
    "C10 for one refinement."
    kw = op.kwargs
    sel = set(kw.get("cluster_ids") or m0.clusters)
    target = kw.get("target_clusters") or None
    minimum = kw.get("minimum_cluster_features", 1)
    if m1.features() != m0.features():
        return f"{op}: features in the model changed: gone {sorted(m0.features() - m1.features())}, new {sorted(m1.features() - m0.features())}"
    if m1.pinned_f != m0.pinned_f:
        return f"{op}: feature pins changed from {sorted(m0.pinned_f)} to {sorted(m1.pinned_f)}"
    if m1.pinned_c != m0.pinned_c:
        return f"{op}: cluster pins changed from {sorted(m0.pinned_c)} to {sorted(m1.pinned_c)}"
    for c, fs in m0.clusters.items():
        if (c not in sel or c in m0.pinned_c) and m1.clusters.get(c) != fs:
            return f"{op}: cluster {c} (outside the selection or pinned) changed from {sorted(fs)} to {sorted(m1.clusters.get(c, ()))}"
    for f in m0.pinned_f:
        c = m0.cluster_of(f)
        if f not in m1.clusters.get(c, ()):
            return f"{op}: pinned feature {f} left cluster {c}"
    new = set(m1.clusters) - set(m0.clusters)
    chosen = sel & set(m0.clusters)
    if new and not (target and target > len(chosen)):
        return f"{op}: new clusters {sorted(new)} though no split was asked for"
    if new and m0.clusters and min(new) <= max(m0.clusters):
        return f"{op}: new clusters {sorted(new)} reuse ids below {max(m0.clusters)}"
    after = len(chosen & set(m1.clusters)) + len(new)
    held = {
        c for c in chosen
        if c in m0.pinned_c or m0.clusters[c] & m0.pinned_f
    }
    if target and after > max(target, len(held)):
        # a selection that is entirely pinned, or a target the pins do not
        # allow, may keep what the pins hold and one place for the rest
        rest = any(m0.clusters[c] - m0.pinned_f for c in chosen - m0.pinned_c)
        if after > max(target, len(held) + (1 if rest and not (held - m0.pinned_c) else 0)):
            return f"{op}: {after} clusters in the selection, target {target}, {len(held)} held by pins"
    if not target or target == len(chosen):
        for c in chosen:
            was, now = len(m0.clusters[c]), len(m1.clusters.get(c, ()))
            if was >= minimum and now < minimum:
                return f"{op}: cluster {c} shrank from {was} to {now} features, minimum {minimum}"
    return None


# ---------------------------------------------------------------- reads


def r_top_cluster_features(s, top_k):
    "Canonical: clusters with counts; features as a multiset of counts plus full rows."
    out = {}
    for c, r in s.clusters.items():
        rows = sorted(
            ((s.fc[f][1], f, s.feats[f][0], s.feats[f][1]) for f in s.members.get(c, ())),
            key=lambda x: -x[0],
        )
        out[c] = (r[2], rows)
    return out


def same_top(s, got, top_k):
    want = r_top_cluster_features(s, top_k)
    if [c for c, _, _ in got] and sorted(c for c, _, _ in got) != sorted(want):
        return False
    if not got and want:
        return False
    counts = [n for _, n, _ in got]
    if counts != sorted(counts, reverse=True):
        return False
    for c, n, feats in got:
        dn, rows = want[c]
        if n != dn or not same_features(rows, feats, top_k):
            return False
    return True


def same_features(rows, feats, top_k):
    "rows: (count, fid, field, value) best first; feats: (fid, field, value, count)."
    k = len(rows) if top_k < 0 else min(top_k, len(rows))
    if len(feats) != k:
        return False
    if [f[3] for f in feats] != [r[0] for r in rows[:k]]:
        return False
    known = {(r[1], r[2], r[3], r[0]) for r in rows}
    return len({f[0] for f in feats}) == k and all(tuple(f) in known for f in feats)
