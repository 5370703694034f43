"""Opening: C16 (creation, migration, refusal)."""

import os
import shutil
import sqlite3

from pyroaring import BitMap

import hyperreal.index

import corpora
import lib
import model
from env import VFS, SimPool, oracle, real_connect
from kernel import this_task
from lib import Run
from scn_index import check_indexed, read_back, settle, start_locker

MAGIC = 715973853

OLD_TRIGGERS = [
    """create trigger ensure_cluster before insert on feature_cluster begin
        insert or ignore into cluster(cluster_id) values (new.cluster_id); end""",
    """create trigger ensure_cluster_update before update on feature_cluster when old.cluster_id != new.cluster_id begin
        insert or ignore into cluster(cluster_id) values (new.cluster_id); end""",
    """create trigger delete_feature_cluster after delete on feature_cluster begin
        update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id; end""",
    """create trigger update_cluster_feature_counts after insert on feature_cluster begin
        update cluster set feature_count = feature_count + 1 where cluster_id = new.cluster_id; end""",
]


def blob(docs):
    return BitMap(docs).serialize()


class Old:
    "The contents of an index written by an earlier version."

    def __init__(self, g, version):
        self.version = version
        keytype = g.draw(2)
        n = g.draw(8)
        self.keys = [(i, 100 + 7 * i if keytype else f"k{i}") for i in range(n)]
        fields = {"text": ["a", "b", "c d", "東", ""], "tag": ["x", "y"], "num": [1, 2, 3]}
        self.feats = []
        fid = 1
        for f in sorted(fields):
            for v in fields[f]:
                if g.flag(0.25):
                    continue
                docs = [d for d in range(n) if g.flag(0.4)]
                self.feats.append((fid, f, v, docs))
                fid += 1 + (g.draw(6) == 0)
        self.fc = {}
        self.pinned_f, self.pinned_c = set(), set()
        n_clusters = g.draw(5)
        for i, f, v, docs in self.feats:
            if n_clusters and not g.flag(0.25):
                self.fc[i] = 1 + g.draw(n_clusters) * 2
        if version >= 8:
            self.pinned_f = {i for i in self.fc if g.flag(0.3)}
            self.pinned_c = {c for c in set(self.fc.values()) if g.flag(0.3)}
        self.positions = version >= 9 and g.flag(0.6)
        self.app = MAGIC if g.flag(0.8) else 0
        self.wal = g.flag(0.6)
        self.extra_trigger = version <= 6 and g.flag(0.6)
        self.skipgrams = version <= 8 and g.flag(0.5)
        self.has_changed = version >= 6
        self.setting = g.pick([None, None, "green", 7])
        # An index that was itself migrated may have a summary that's empty or out of date.
        self.summary = g.pick([1, 1, 1, 0, 2]) if version < 10 else 1

    def __repr__(self):
        return f"version {self.version}: {len(self.keys)} docs, {len(self.feats)} features, clusters {sorted(set(self.fc.values()))}"

    def build(self, path):
        v = self.version
        with oracle():
            con = real_connect(path, isolation_level=None)
            if self.wal:
                con.execute("pragma journal_mode=WAL").fetchall()
            con.execute("begin")
            x = con.execute
            x("create table settings (key primary key, value)")
            if self.setting is not None:
                x("insert into settings values ('colour', ?)", (self.setting,))
            x("create table doc_key (doc_id integer primary key, doc_key unique)")
            x("""create table inverted_index (feature_id integer primary key, field text not null, value not null,
                 docs_count integer not null, doc_ids roaring_bitmap not null, unique (field, value))""")
            pc = ", position_count" if v >= 10 else ""
            x(f"create table field_summary (field text primary key, distinct_values integer, min_value, max_value{pc})")
            x("create index docs_counts on inverted_index(docs_count)")
            summ = ", docs_count integer default 0, weight integer default 0, doc_ids roaring_bitmap" if v >= 5 else ""
            pin = ", pinned bool default 0" if v >= 8 else ""
            x(f"create table cluster (cluster_id integer primary key, feature_count integer default 0{summ}{pin})")
            x(f"""create table feature_cluster (
                 feature_id integer primary key references inverted_index(feature_id) on delete cascade,
                 cluster_id integer references cluster(cluster_id) on delete cascade, docs_count integer{pin})""")
            x("create index cluster_features on feature_cluster(cluster_id, docs_count)")
            if self.has_changed:
                x("create table changed_cluster (cluster_id integer primary key references cluster on delete cascade)")
            if self.skipgrams:
                x("create table skipgram_count (feature_id_a, feature_id_b, docs_count)")
                x("insert into skipgram_count values (1, 2, 3)")
            if v >= 9:
                x("""create table position_doc_map (field text not null, first_doc_id integer not null, last_doc_id integer not null,
                     docs_count integer not null, doc_ids roaring_bitmap not null, doc_boundaries roaring_bitmap not null,
                     primary key (field, first_doc_id))""")
                x("""create table position_index (feature_id references inverted_index on delete cascade, first_doc_id integer,
                     position_count integer, positions roaring_bitmap, primary key (feature_id, first_doc_id))""")
            if self.extra_trigger:
                for t in OLD_TRIGGERS[:2]:
                    x(t)
            con.executemany("insert into doc_key values (?, ?)", self.keys)
            for i, f, val, docs in self.feats:
                x("insert into inverted_index values (?, ?, ?, ?, ?)", (i, f, val, len(docs), blob(docs)))
            members = {}
            for i, c in self.fc.items():
                members.setdefault(c, []).append(i)
            docs_of = {i: set(d) for i, _, _, d in self.feats}
            for c, m in sorted(members.items()):
                cols = {"cluster_id": c, "feature_count": len(m)}
                if v >= 5:
                    u = set().union(*(docs_of[i] for i in m))
                    cols |= {"docs_count": len(u), "weight": sum(len(docs_of[i]) for i in m), "doc_ids": blob(sorted(u))}
                if v >= 8:
                    cols["pinned"] = int(c in self.pinned_c)
                x(f"insert into cluster({', '.join(cols)}) values ({', '.join('?' * len(cols))})", list(cols.values()))
            for i, c in sorted(self.fc.items()):
                cols = {"feature_id": i, "cluster_id": c, "docs_count": len(docs_of[i])}
                if v >= 8:
                    cols["pinned"] = int(i in self.pinned_f)
                x(f"insert into feature_cluster({', '.join(cols)}) values ({', '.join('?' * len(cols))})", list(cols.values()))
            for f in sorted({f[1] for f in self.feats}):
                vals = [r[2] for r in self.feats if r[1] == f][:: self.summary or 1]
                if self.summary == 0:
                    continue
                x("insert into field_summary(field, distinct_values, min_value, max_value) values (?, ?, ?, ?)", (f, len(vals), min(vals), max(vals)))
            self.pos = {}
            if self.positions and self.keys and any(r[1] == "text" and r[3] for r in self.feats):
                # every document holding text features: those features in id order
                text = [r for r in self.feats if r[1] == "text"]
                seqs = {d: [r for r in text if d in r[3]] for d, _ in self.keys}
                docs = [d for d, _ in self.keys if seqs[d]]
                bounds, at, places = [0], 0, {}
                for d in docs:
                    for r in seqs[d]:
                        places.setdefault(r[0], []).append(at)
                        at += 1
                    bounds.append(at)
                x("insert into position_doc_map values ('text', ?, ?, ?, ?, ?)", (docs[0], docs[-1], len(docs), blob(docs), blob(bounds)))
                for i, p in places.items():
                    x("insert into position_index values (?, ?, ?, ?)", (i, docs[0], len(p), blob(p)))
                self.pos = {"text": {d: tuple(r[2] for r in seqs[d]) for d in docs}}
            x(f"pragma user_version = {v}")
            x(f"pragma application_id = {self.app}")
            con.execute("commit")
            con.close()

    def check(self, s):
        "Is this snapshot the same content, at the current version?"
        if s.keys != dict(self.keys):
            return f"documents {s.keys}, were {dict(self.keys)}"
        if s.feats != {i: (f, v) for i, f, v, _ in self.feats}:
            return f"features {s.feats}, were {self.feats}"
        for i, f, v, docs in self.feats:
            if s.docs[i] != set(docs) or s.fcount[i] != len(docs):
                return f"feature {f}={v!r} retrieves {sorted(s.docs[i])} (count {s.fcount[i]}), was {docs}"
        if {i: c for i, (c, _, _) in s.fc.items()} != self.fc:
            return f"model {s.members}, was {self.fc}"
        if s.pinned_c != self.pinned_c or s.pinned_f != self.pinned_f:
            return f"pins {sorted(s.pinned_c)} {sorted(s.pinned_f)}, were {sorted(self.pinned_c)} {sorted(self.pinned_f)}"
        e = model.check_summaries(s)
        if e:
            return e
        if self.version < 10 and s.settings.get("colour") != self.setting:
            return f"settings {s.settings}, colour was {self.setting!r}"
        if s.positions() != self.pos:
            return f"positions {s.positions()}, were {self.pos}"
        want = {}
        for f in {r[1] for r in self.feats}:
            vals = [r[2] for r in self.feats if r[1] == f]
            want[f] = (len(vals), min(vals), max(vals), sum(len(t) for t in self.pos.get(f, {}).values()))
        if s.fsum != want:
            return f"field summary {s.fsum}, should be {want}"
        return None


def dump(path):
    "Every table, row, and version number of a database, or its bytes if it is none."
    with oracle():
        if not os.path.exists(path):
            return "missing"
        if os.path.isdir(path):
            return "directory"
        con = real_connect(path, isolation_level=None, timeout=0)
        try:
            names = con.execute("select type, name, sql from sqlite_master order by 1, 2").fetchall()
            out = [("schema", tuple(names))]
            for t, n, _ in names:
                if t == "table":
                    out.append((n, tuple(sorted(con.execute(f'select * from "{n}"').fetchall(), key=repr))))
            out.append(("user_version", con.execute("pragma user_version").fetchone()))
            out.append(("application_id", con.execute("pragma application_id").fetchone()))
            return tuple(out)
        except sqlite3.DatabaseError:
            return open(path, "rb").read()
        finally:
            con.close()


FOREIGN = ["tables", "version 10", "version 10 and settings", "unknown version", "garbage", "directory", "old number"]


def make_foreign(path, g, kind):
    "Something at path that is not an index; returns what must stay the same."
    with oracle():
        if kind == "garbage":
            with open(path, "wb") as f:
                f.write(bytes((g.draw(251) + 5) for _ in range(200)))
            return
        if kind == "directory":
            os.makedirs(path)
            return
        con = real_connect(path, isolation_level=None)
        if g.flag(0.3):
            con.execute("pragma journal_mode=WAL").fetchall()
        con.execute("create table notes (id integer primary key, body)")
        con.execute("insert into notes(body) values ('mine'), (null)")
        app = [0, 12345][g.draw(2)]
        v = {"tables": 0, "version 10": 10, "version 10 and settings": 10, "unknown version": [1, 2, 3, 11, 99, -4][g.draw(6)],
             "old number": 4 + g.draw(6)}[kind]
        if kind == "version 10 and settings":
            con.execute("create table settings (key primary key, value)")
            con.execute("insert into settings values ('colour', 'green')")
        con.execute(f"pragma user_version = {v}")
        con.execute(f"pragma application_id = {app}")
        con.close()


NAMES = ["i.db", "i.db", "i.db", "a b.db", "x%41.db", "what?.db", "n#1.db", "ü.db"]
OPEN_FAULTS = lib.DISK_KINDS + ["interrupt", "interrupt", "lock"]


def works(run, idx, path, s, what):
    "The opened index can be read and edited."
    read_back(run, idx, s)
    free = sorted(s.feats)
    if free:
        op = model.Op("create_cluster_from_features", (free[:2],))
        r = run.must(f"{op} {what}", op.call, idx)
        s1 = lib.model_now(path)
        e = op.check(s, s1, r) or model.check_summaries(s1)
        if e:
            run.fail("opened index does not work", f"{what}: {e}")


def c16(w):
    run = Run(w)
    g = run.g
    mode = g.weighted([4, 3, 3])
    if mode == 0 and g.flag(0.4):
        return c16_foreign(run)
    name = NAMES[g.draw(len(NAMES))]
    path = run.path(name)
    kind = g.weighted([3, 8, 1])
    old = None
    if kind == 1:
        old = Old(run.opg("old"), 4 + g.draw(6))
        old.build(path)
    elif kind == 2:
        old = Old(run.opg("old"), 10)
        with run.calm():
            make_current(run, old, path)
    elif g.flag(0.3):
        open(path, "wb").close()
    what = repr(old) if old else "a new index"
    run.note(f"{name}: {what}")

    def right(s, when):
        if old is not None:
            e = old.check(s)
        else:
            e = None if not (s.keys or s.feats or s.clusters or s.fsum) else "a new index is not empty"
        if e:
            run.fail("opening lost or changed contents", f"{what}, {when}: {e}")

    if mode == 0:
        c16_single(run, path, old, what, right)
    elif mode == 1:
        c16_many(run, path, old, what, right)
    else:
        c16_crash(run, path, old, what, right)


def make_current(run, old, path):
    "The same content at the current version: created by the code, filled in by hand."
    pool = run.pool(1)
    idx = run.must("Index", run.index, path, None, pool)
    idx.close()
    tmp = path + ".v9"
    old.version = 9
    old.build(tmp)
    old.version = 10
    with oracle():
        con = real_connect(path, isolation_level=None)
        con.execute("attach ? as o", (tmp,))
        con.execute("begin")
        for t, cols in (("doc_key", "*"), ("inverted_index", "*"), ("position_doc_map", "*"), ("position_index", "*"),
                        ("cluster", "cluster_id, feature_count, docs_count, weight, doc_ids, pinned"), ("feature_cluster", "*")):
            into = f"{t}({cols})" if cols != "*" else t
            con.execute(f"insert into {into} select {cols} from o.{t}")
        con.execute("""insert into field_summary select field, distinct_values, min_value, max_value,
            coalesce((select sum(position_count) from position_index join inverted_index using(feature_id) where field = f.field), 0)
            from o.field_summary f""")
        con.execute("delete from changed_cluster")
        con.execute("commit")
        con.execute("detach o")
        con.close()
        for x in (tmp, tmp + "-wal", tmp + "-shm"):
            if os.path.exists(x):
                os.remove(x)


def arm_one(run, f, path):
    kind = f.pick(OPEN_FAULTS)
    if kind == "lock":
        return [], (start_locker(run, path, f, now=True) if os.path.exists(path) else None)
    return [lib.arm(run, f, kind, client=this_task())], None


def c16_single(run, path, old, what, right):
    w, g, sim = run.w, run.g, run.sim
    pool = run.pool()
    before = dump(path)
    if os.path.exists(path) and before[0] == ("schema", ()):
        before = "missing"
    is_idx = run.must("is_index_db", hyperreal.index.Index.is_index_db, path)
    if bool(is_idx) != bool(old is not None and (old.app == MAGIC or old.version == 10)):
        run.fail("is_index_db is wrong", f"{is_idx} for {what} at {os.path.basename(path)!r}")
    if old is None and before == "missing" and not g.flag(0.01) and os.path.exists(path) and os.path.getsize(path):
        run.fail("is_index_db is wrong", "it wrote to the path")
    for i in range(1 + g.draw(3)):
        f = run.opg("fault")
        if not f.flag(0.7):
            continue
        armed, locker = arm_one(run, f, path)
        ok, r = run.call("Index", run.index, path, None, pool)
        lib.disarm(run)
        if locker is not None:
            sim.locker_stop = True
            run.join([locker])
        fired = [a for a in armed if a.fired]
        run.note(f"open -> {'ok' if ok else type(r).__name__ + ': ' + str(r)[:60]}" + (f"; fired {[a.kind for a in fired]}" if fired else "") + (" lock held" if locker else ""))
        if fired or locker is not None:
            w.nontrivial = True
        elif not ok:
            run.fail("opening raised without a fault", f"{what}: {type(r).__name__}: {r}")
        if ok:
            r.close()
            right(lib.model_now(path), "opened with a fault about")
        else:
            # what is there is still what was there, or all of what there will be
            now = dump(path)
            if now != before and not (now in ("missing",) or isinstance(now, tuple) and now[0] == ("schema", ()) and old is None):
                try:
                    s = lib.model_now(path)
                except sqlite3.OperationalError as e:
                    run.fail("failed opening left it half done", f"{what}: {e}")
                if not any(x[0] == "user_version" and x[1] == (10,) for x in now):
                    run.fail("failed opening left it half done", f"{what}: {str(now)[:300]}")
                right(s, "after a failed opening")
    idx = run.must(f"Index({what})", run.index, path, None, pool)
    s = lib.model_now(path)
    right(s, "opened")
    if old is not None:
        w.nontrivial = True
    if not run.must("is_index_db", hyperreal.index.Index.is_index_db, path):
        run.fail("is_index_db is wrong", f"False for an opened index at {os.path.basename(path)!r}")
    works(run, idx, path, s, "after opening")
    idx.close()


def c16_many(run, path, old, what, right):
    w, g, sim = run.w, run.g, run.sim
    pool = run.pool()
    sim.p_switch = lib.P_SWITCH[1 + run.k.draw(4)]
    n = 2 + g.draw(3)
    opening = [0]

    def opener(i):
        opening[0] += 1
        if opening[0] > 1:
            w.nontrivial = True
        ok, r = run.call(f"Index by {i}", run.index, path, None, pool)
        opening[0] -= 1
        run.note(f"opener {i} -> {'ok' if ok else type(r).__name__ + ': ' + str(r)[:60]}")
        if not ok:
            run.fail("concurrent opening failed", f"{what}: {type(r).__name__}: {r}")
        ids = run.must("cluster_ids", lambda: r.cluster_ids)
        want = sorted(set(old.fc.values())) if old is not None else []
        if sorted(ids) != want:
            run.fail("opening lost or changed contents", f"{what}: opener sees clusters {ids}, expected {want}")
        top = run.must("top_cluster_features", r.top_cluster_features, 3)
        if [c[0] for c in top] and old is not None:
            docs = {c: set() for c in want}
            for f, c in old.fc.items():
                docs[c] |= set(next(x[3] for x in old.feats if x[0] == f))
            got = {c[0]: c[1] for c in top}
            if got != {c: len(d) for c, d in docs.items()}:
                run.fail("opening shows unfinished summaries", f"{what}: {got}")
        r.close()

    run.join([run.client(lambda i=i: opener(i), f"o{i}") for i in range(n)])
    s = lib.model_now(path)
    right(s, "opened concurrently")
    idx = run.must("Index", run.index, path, None, pool)
    works(run, idx, path, s, "after concurrent openings")
    idx.close()


def c16_crash(run, path, old, what, right):
    w, g, sim = run.w, run.g, run.sim
    pool = run.pool()
    VFS.start_log(w.data)
    rel = os.path.relpath(path, w.data)
    idx = run.must(f"Index({what})", run.index, path, None, pool)
    done_at = len(VFS.oplog)
    right(lib.model_now(path), "opened")
    idx.close()
    total = len(VFS.oplog)
    log = VFS.oplog
    VFS.oplog = None
    for j in range(6):
        c = run.ch.sub(f"crash{j}")
        power = c.flag(0.5)
        upto = c.draw(total + 1)
        VFS.oplog = log
        d = w.image_dir()
        if power:
            kept, dropped, torn = VFS.image_power(d, upto, c.draw)
            sim.fired["power loss"] += 1
            sim.fired["torn write"] += bool(torn)
            sim.fired["lost write"] += bool(dropped)
        else:
            VFS.image_kill(d, upto)
            sim.fired["process kill"] += 1
        VFS.oplog = None
        when = f"{'power loss' if power else 'kill'} before file operation {upto} of {total} (opened at {done_at})"
        ipath = os.path.join(d, rel)
        if upto < total:
            w.nontrivial = True
        idx2 = run.must(f"Index({what}) after {when}", run.index, ipath, None, pool)
        s = lib.model_now(ipath)
        right(s, f"reopened after {when}")
        if j == 0:
            works(run, idx2, ipath, s, f"after {when}")
        idx2.close()
        shutil.rmtree(d, ignore_errors=True)


def c16_foreign(run):
    w, g, sim = run.w, run.g, run.sim
    pool = run.pool()
    name = NAMES[g.draw(len(NAMES))]
    path = run.path(name)
    kind = FOREIGN[g.draw(len(FOREIGN))]
    make_foreign(path, run.opg("f"), kind)
    before = dump(path)
    data = open(path, "rb").read() if os.path.isfile(path) else None
    w.nontrivial = True
    ok, is_idx = run.call("is_index_db", hyperreal.index.Index.is_index_db, path)
    if not ok or is_idx:
        run.fail("is_index_db is wrong", f"{is_idx!r} for {kind}")
    armed = []
    f = run.opg("fault")
    if f.flag(0.3):
        armed, _ = arm_one(run, f, path) if kind not in ("garbage", "directory") else ([], None)
        sim.locker_stop = True
    ok, r = run.call("Index", run.index, path, None, pool)
    lib.disarm(run)
    run.note(f"{name}: {kind} -> {'opened' if ok else type(r).__name__ + ': ' + str(r)[:80]}")
    if ok:
        run.fail("opened something that is not an index", f"{kind}: {before}"[:400])
    if not isinstance(r, (ValueError, sqlite3.Error, OSError, KeyboardInterrupt)):
        run.fail("refusal is not an error about the database", f"{kind}: {type(r).__name__}: {r}")
    now = dump(path)
    if now != before:
        run.fail("refused database was changed", f"{kind}: {str(before)[:200]} -> {str(now)[:200]}")
    if data is not None and kind != "old number" and open(path, "rb").read() != data:
        run.fail("refused database was changed", f"{kind}: its file differs")
    r = None
    # nothing is left locked
    if kind not in ("garbage", "directory"):
        def owner():
            con = sqlite3.connect(path, isolation_level=None, timeout=0)
            con.execute("insert into notes(body) values ('later')")
            con.close()
        run.must("owner writes", owner)
