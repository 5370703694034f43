"""Shared parts of the scenarios: knobs, calls, faults, crash checks."""

import contextlib
import os
import sqlite3

import hyperreal.index
import hyperreal.corpus

import corpora
import env
import model
import vfs as vfsmod
from env import VFS, SimPool, World, oracle, real_connect
from kernel import DONE, Fault, HarnessError, Sim, SimKilled, Violation, this_task

P_SWITCH = [0.0, 0.02, 0.1, 0.3, 0.6]


class Injected(RuntimeError):
    "An error a worker or the environment raises because the simulator says so."


class Run:
    """What every scenario starts from."""

    def __init__(self, w, knobs=True):
        self.w = w
        self.sim = w.sim
        self.ch = w.ch
        self.prop = w.prop
        self.g = w.ch.sub("w")
        model.install_watch(self.sim)
        k = w.ch.sub("knobs")
        self.k = k
        self.sim.p_switch = P_SWITCH[k.draw(len(P_SWITCH))]
        self.sim.late_pickle = bool(k.flag(0.4))
        self.autockpt = None
        self.cache = None
        if knobs and k.flag(0.35):
            self.autockpt = [1, 2, 5, 20][k.draw(4)]
        if knobs and k.flag(0.2):
            self.cache = [1, 3, 10][k.draw(3)]
        if self.autockpt or self.cache:
            self.sim.conn_hook = self._tune
        self.n_op = 0
        self.faulty = False

    def _tune(self, con, database):
        if not str(database).startswith(self.w.data) or "temp_index" in str(database):
            return
        with oracle():
            try:
                if self.autockpt:
                    con.execute(f"pragma wal_autocheckpoint={self.autockpt}")
                if self.cache:
                    con.execute(f"pragma cache_size={self.cache}")
            except sqlite3.OperationalError:
                pass

    # -- bookkeeping

    def path(self, name):
        return os.path.join(self.w.data, name)

    def note(self, text):
        text = str(text).replace(self.w.dir, "<dir>")
        self.w.trace.append(text[:300])
        self.sim.event("NOTE", text[:120])

    def fail(self, cls, detail=""):
        raise Violation(self.prop, cls, str(detail)[:1500])

    def opg(self, name="op"):
        "A fresh stream of choices for the next operation."
        self.n_op += 1
        return self.ch.sub(f"{name}{self.n_op}")

    # -- set up

    def pool(self, n=None):
        return SimPool(n if n is not None else 1 + self.k.draw(4))

    def index(self, path, corpus=None, pool=None, seed=1):
        return hyperreal.index.Index(path, corpus=corpus, pool=pool, random_seed=seed)

    def watch(self, path, **kw):
        return model.Watcher(self.sim, VFS, path, **kw)

    @contextlib.contextmanager
    def calm(self):
        "Set-up work: no preemption while it runs."
        p = self.sim.p_switch
        self.sim.p_switch = 0.0
        try:
            yield
        finally:
            self.sim.p_switch = p

    def call(self, name, fn, *a, **kw):
        """
        Call into the code under test.  (True, value) or (False, exception);
        injected faults, errors and interrupts come back as the exception.
        """
        t = this_task()
        t.op = name
        try:
            return True, fn(*a, **kw)
        except (Violation, HarnessError):
            raise
        except (Exception, KeyboardInterrupt) as e:
            e.__traceback__ = drop_frames(e)
            return False, e
        finally:
            t.op = None
            t.interrupt = False
            t.stall = None

    def must(self, name, fn, *a, **kw):
        "A call that has no reason to fail."
        ok, r = self.call(name, fn, *a, **kw)
        if not ok:
            self.fail(f"{name.split('(')[0]} raised", f"{name}: {type(r).__name__}: {r}")
        return r

    def reopen(self, path, corpus, pool):
        "Open an index while faults may be about: an attempt may fail, the next must not."
        for i in range(6):
            ok, r = self.call("Index", self.index, path, corpus, pool)
            if ok:
                return r
        self.fail("Index raised", f"{type(r).__name__}: {r}, again and again")

    def join(self, tasks):
        self.sim.wait_tasks(tasks)
        for t in tasks:
            if isinstance(t.error, Violation):
                raise t.error
            if t.error is not None:
                where = env.in_hyperreal(t.error)
                if where is not None and not isinstance(t.error, HarnessError):
                    self.fail("unexpected exception", f"{type(t.error).__name__}: {t.error} at {where}")
                raise HarnessError(f"{t.name}: {t.error!r}\n{t.tb}")

    def client(self, fn, name):
        return self.sim.spawn(fn, name)


def drop_frames(e):
    "Forget the frames of a caught exception: they keep connections alive."
    seen = set()
    x = e
    while x is not None and id(x) not in seen:
        seen.add(id(x))
        x.__traceback__ = None
        x = x.__cause__ or x.__context__
    e.__context__ = None
    return None


# ---------------------------------------------------------------- faults

WORKER_KINDS = ["worker exception", "worker death", "submit error"]
START_KINDS = ["no resources to start", "lock server death"]
DISK_KINDS = ["disk I/O error", "disk full", "short write, disk full", "short write, I/O error", "disk read error"]


def countdown(g):
    "Where a fault strikes: mostly early, sometimes far into the operation."
    return g.draw([4, 16, 60, 250][g.draw(4)])


def arm(run, g, kind, client=None, where=None, tmp_only=False):
    """Arm one fault of the given kind; `where` filters file names."""
    sim = run.sim
    n = countdown(g)

    def raise_(exc):
        def act(_):
            raise exc
        return act

    def die(t):
        t = t if hasattr(t, "tid") else this_task()
        sim.kill_task(t)
        sim.mark_dead(t)
        raise SimKilled()

    if kind == "worker exception":
        cat = ["worker stmt", "task", "task end"][g.draw(3)]
        n = n if cat == "worker stmt" else n % 12
        f = Fault(kind, cat, n, action=raise_(Injected("injected worker error")))
    elif kind == "worker death":
        cat = ["worker stmt", "task", "task end", "vfs"][g.draw(4)]
        if cat == "vfs":
            f = Fault(kind, cat, n % 40, match=lambda i: this_task().kind == "worker")
            f.action = lambda: sim.kill_task(this_task())
        else:
            n = n if cat == "worker stmt" else n % 12
            f = Fault(kind, cat, n, action=die)
    elif kind == "no resources to start":
        f = Fault(kind, "start", n % 3)
    elif kind == "lock server death":
        f = Fault(kind, "lock", n % 14)
    elif kind == "submit error":
        f = Fault(kind, "submit", n % 12)
    elif kind == "document error":
        cat = ["doc", "index doc", "keys"][g.draw(3)]
        f = Fault(kind, cat, n % 14, action=raise_(corpora.DocError("unreadable document")))
    elif kind == "interrupt":
        def act(_):
            this_task().interrupt = True
        f = Fault(kind, "after stmt", n, match=lambda i: i[0] is client, action=act)
    elif kind == "slow worker":
        secs = [1, 4, 7, 30][g.draw(4)]

        def slow(_):
            sim.sleep_us(secs * 1_000_000)
        cat = ["worker stmt", "task", "doc"][g.draw(3)]
        f = Fault(kind, cat, n % 14, action=slow)
    elif kind == "disk read error":
        VFS.hook_reads(1)
        f = Fault(kind, "read", n, match=where and (lambda i: where(i[1])))
    else:
        persist = kind == "disk full"
        if kind == "disk I/O error":
            m = lambda i: where is None or where(i[1])
        else:
            m = lambda i: i[0] == vfsmod.WRITE and (where is None or where(i[1]))
        f = Fault(kind, "vfs", n, match=m, persist=persist)
    return sim.arm(f)


def stall(run, g, wt, span=8):
    "Hold up this client after one of its next statements, until others have committed."
    sim = run.sim
    want = wt.n() + 1 + g.draw(3)
    secs = [0.5, 3, 20][g.draw(3)]
    sim.armed["stalled client"] += 1
    this_task().stall = (g.draw(span), lambda: wt.n() >= want, int(secs * 1e6))


def disarm(run):
    run.sim.disarm()
    VFS.hook_reads(0)


# ---------------------------------------------------------------- states from files


def read_image(path):
    "Open a crash image with plain SQLite and read its committed state."
    with oracle():
        con = real_connect(path, isolation_level=None, timeout=0)
        try:
            ic = con.execute("pragma integrity_check").fetchall()
            if ic != [("ok",)]:
                return None, f"integrity check: {ic[:3]}"
            fk = con.execute("pragma foreign_key_check").fetchall()
            if fk:
                return None, f"foreign key check: {fk[:3]}"
            return model.read_snap(con), None
        except sqlite3.DatabaseError as e:
            return None, f"{type(e).__name__}: {e}"
        finally:
            con.close()


def build_base(run, path, g, corpus, pool, positions, n_clusters=None, edits=0):
    """An index with content and (usually) a model, made by the code under test, calmly."""
    with run.calm():
        idx = run.index(path, corpus, pool, seed=1 + g.draw(3))
        idx.index(doc_batch_size=1 + g.draw(6), index_positions=positions)
        n = g.draw(6) if n_clusters is None else n_clusters
        if n:
            feats = len(model_now(path).feats)
            if feats > 60 and g.flag(0.5):
                n = 1 + g.draw(feats)
            idx.initialise_clusters(n, min_docs=1)
            for _ in range(edits):
                op = gen_edit(g, model_now(path))
                run.call(str(op), op.call, idx)
    return idx


def model_now(path):
    with oracle():
        con = model.open_probe(path)
        try:
            return model.read_snap(con)
        finally:
            con.close()


# ---------------------------------------------------------------- edits


def some_clusters(g, s, lo=1, hi=4, bogus=True):
    ids = sorted(s.clusters)
    if len(ids) > hi and g.flag(0.1):
        hi = len(ids)
    out = g.sample(ids, lo + g.draw(hi - lo + 1))
    if bogus and g.flag(0.08):
        out.append(900 + g.draw(5))
    if out and g.flag(0.06):
        out.append(out[0])
    return out


def some_features(g, s, lo=1, hi=5, in_model=None):
    ids = sorted(s.feats)
    if in_model is True:
        ids = sorted(s.fc)
    elif in_model is False:
        ids = sorted(set(s.feats) - set(s.fc))
    if len(ids) > hi and g.flag(0.08):
        hi = len(ids)
    return g.sample(ids, lo + g.draw(hi - lo + 1))


EDITS = (
    "create_cluster_from_features", "merge_clusters", "delete_clusters", "delete_features",
    "pin_features", "pin_clusters", "initialise_clusters", "refine_clusters",
)


def gen_edit(g, s, weights=(6, 4, 2, 3, 3, 3, 1, 2), refine_iter=2):
    "One editing call, chosen with the present state in view."
    Op = model.Op
    name = EDITS[g.weighted(list(weights))]
    if name == "create_cluster_from_features":
        c = g.draw(8)
        if c == 7:
            return Op(name, ([*some_features(g, s), 99999],))  # not in the index
        if c == 6 and s.clusters:
            # a whole cluster moves: its old place disappears
            cid = g.pick(sorted(s.clusters))
            return Op(name, (sorted(s.members[cid]),))
        if c == 5 and s.clusters:
            cid = max(s.clusters)
            return Op(name, (sorted(s.members[cid]),))
        return Op(name, (some_features(g, s, 0 if g.flag(0.05) else 1, 5, [None, True, False][g.draw(3)]),))
    if name == "merge_clusters":
        return Op(name, (some_clusters(g, s, 1, 4) or [1],))
    if name == "delete_clusters":
        return Op(name, (some_clusters(g, s, 1, 2),))
    if name == "delete_features":
        if g.flag(0.25) and s.clusters:
            return Op(name, (sorted(s.members[g.pick(sorted(s.clusters))]),))
        return Op(name, (some_features(g, s, 1, 4),))
    if name == "pin_features":
        return Op(name, (some_features(g, s, 1, 4),), {"pinned": not g.flag(0.3)})
    if name == "pin_clusters":
        return Op(name, (some_clusters(g, s, 1, 3),), {"pinned": not g.flag(0.3)})
    if name == "initialise_clusters":
        kw = {"min_docs": 1 + g.draw(2)}
        if g.flag(0.3):
            kw["include_fields"] = [["text"], ["tag"], ["text", "tag"], ["nope"], ["At", "num"], ["tag", "num", "text", "title"], ["title", "ref", "text"]][g.draw(7)]
        return Op(name, (1 + g.draw([24, len(s.feats) or 1][g.draw(2)] if g.flag(0.15) else 6),), kw)
    return gen_refine(g, s, refine_iter)


def gen_refine(g, s, iters=3):
    kw = {"iterations": 1 + g.draw(iters)}
    ids = sorted(s.clusters)
    if g.flag(0.4) and ids:
        kw["cluster_ids"] = g.sample(ids, 1 + g.draw(len(ids)))
    n = len(kw.get("cluster_ids") or ids)
    if g.flag(0.5):
        kw["target_clusters"] = max(1, n + g.draw(7) - 3) if g.flag(0.85) else 1 + g.draw(20)
    if g.flag(0.3):
        kw["minimum_cluster_features"] = 1 + g.draw(4)
    if g.flag(0.4):
        kw["group_test_batches"] = g.draw(4)
    if g.flag(0.2):
        kw["group_test_top_k"] = 1 + g.draw(3)
    if g.flag(0.3):
        kw["tolerance"] = [0.0, 0.5, 1.0][g.draw(3)]
    if g.flag(0.3):
        kw["move_acceptance_probability"] = [1.0, 0.1, 0.0][g.draw(3)]
    return model.Op("refine_clusters", (), kw)


# Without declared types the bitmaps come as they are stored.
RAW_QUERIES = [q.replace("doc_ids", "+doc_ids").replace("positions ", "+positions ").replace("doc_boundaries", "+doc_boundaries") for q in model.QUERIES]


def inside(idx):
    "What the connection itself sees, its open transaction included."
    return model.Snap([idx.db.execute(q).fetchall() for q in RAW_QUERIES])
