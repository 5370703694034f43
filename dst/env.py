"""
The seams.  Importing this module (before hyperreal) replaces, inside this
process only, everything nondeterministic that hyperreal reaches:

  sqlite3.connect          -> SimConnection on the simvfs VFS
  concurrent.futures       -> SimPool / SimFuture and simulated wait, as_completed
  multiprocessing.Manager, Lock -> simulated locks
  time.sleep/monotonic/time -> the simulated clock (inside simulated tasks)
  tempfile names           -> a counter under the run's scratch directory
  atexit.register          -> nothing (pools belong to the simulator)

Outside a simulated run the wrappers behave like the originals.
"""

import atexit
import concurrent.futures as cf
import concurrent.futures.process as cfp
import gc
import io
import itertools
import logging
import multiprocessing as mp
import multiprocessing.context
import os
import pickle
import random
import shutil
import sqlite3
import sys
import tempfile
import threading
import time

import warnings

from kernel import (
    Choices, Fault, HarnessError, Sim, SimKilled, SimStop, Violation, this_task, RUN, DONE,
)
import vfs as vfsmod

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

VFS = vfsmod.Vfs()
real_connect = sqlite3.connect

CLEANUP = ("rollback", "release", "detach", "pragma")


def _head(sql):
    return " ".join(sql.split())[:48] if isinstance(sql, str) else "?"


def _before(con, sql):
    sim = Sim.active
    t = this_task()
    if sim is None or t is None or sim.stopping and t.killed:
        if t is not None and t.killed:
            raise SimKilled()
        return None
    head = _head(sql)
    sim.point("sql", head)
    if t.kind == "worker":
        f = sim.hit("worker stmt", t)
        if f is not None:
            f.action(t)
    if sim.faults:
        f = sim.hit("stmt", (t, head))
        if f is not None and f.action is not None:
            f.action(t)
    if sim.stmt_hook is not None:
        sim.stmt_hook(con, head, t)
    return sim, t, head


def _after(con, tok, ok=True):
    if tok is None:
        return
    sim, t, head = tok
    if sim.commit_hook is not None and not t.dead_set:
        try:
            idle = not con.in_transaction
        except sqlite3.ProgrammingError:
            idle = True
        if idle:
            sim.commit_hook(head)
    if t.killed:
        sim.mark_dead(t)
        raise SimKilled()
    if ok:
        low = head.lower()
        if not low.startswith(CLEANUP):
            if sim.faults:
                f = sim.hit("after stmt", (t, head))
                if f is not None and f.action is not None:
                    f.action(t)
            if t.stall is not None:
                sim.count_stall(t)
            sim.deliver_interrupt(head)


class SimCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        tok = _before(self.connection, sql)
        try:
            r = super().execute(sql, *a)
        except BaseException:
            _after(self.connection, tok, False)
            raise
        _after(self.connection, tok)
        return r

    def executemany(self, sql, *a):
        tok = _before(self.connection, sql)
        try:
            r = super().executemany(sql, *a)
        except BaseException:
            _after(self.connection, tok, False)
            raise
        _after(self.connection, tok)
        return r

    def executescript(self, sql):
        tok = _before(self.connection, sql)
        try:
            r = super().executescript(sql)
        except BaseException:
            _after(self.connection, tok, False)
            raise
        _after(self.connection, tok)
        return r


class SimConnection(sqlite3.Connection):
    def cursor(self, factory=SimCursor):
        return super().cursor(factory)

    def execute(self, sql, *a):
        tok = _before(self, sql)
        try:
            r = super().execute(sql, *a)
        except BaseException:
            _after(self, tok, False)
            raise
        try:
            _after(self, tok)
        except BaseException:
            r = None  # an open cursor must not live on in this frame's traceback
            raise
        return r

    def executemany(self, sql, *a):
        tok = _before(self, sql)
        try:
            r = super().executemany(sql, *a)
        except BaseException:
            _after(self, tok, False)
            raise
        try:
            _after(self, tok)
        except BaseException:
            r = None  # an open cursor must not live on in this frame's traceback
            raise
        return r

    def executescript(self, sql):
        tok = _before(self, sql)
        try:
            r = super().executescript(sql)
        except BaseException:
            _after(self, tok, False)
            raise
        try:
            _after(self, tok)
        except BaseException:
            r = None  # an open cursor must not live on in this frame's traceback
            raise
        return r

    def commit(self):
        tok = _before(self, "commit")
        try:
            r = super().commit()
        finally:
            _after(self, tok, False)
        return r

    def rollback(self):
        tok = _before(self, "rollback")
        try:
            r = super().rollback()
        finally:
            _after(self, tok, False)
        return r

    def close(self):
        t = this_task()
        sim = Sim.active
        if sim is not None and t is not None and not t.dead_set:
            sim.event("close")
        super().close()
        if sim is not None and t is not None and sim.commit_hook is not None and not t.dead_set:
            sim.commit_hook("close")


def sim_connect(database, *a, **kw):
    sim = Sim.active
    t = this_task()
    if sim is None or t is None:
        return real_connect(database, *a, **kw)
    if t.killed:
        raise SimKilled()
    sim.point("connect", os.path.basename(str(database)))
    kw.setdefault("factory", SimConnection)
    con = real_connect(database, *a, **kw)
    if t.dead_set:
        con.close()
        raise SimKilled()
    if sim.conn_hook is not None:
        sim.conn_hook(con, database)
    return con


Sim.conn_hook = None

# ---------------------------------------------------------------- futures


class _Remote(Exception):
    pass


class SimFuture:
    """A future of the simulated pool."""

    def __init__(self, sim, seq, hashv):
        self._sim = sim
        self._seq = seq
        self._hash = hashv
        self._state = "PENDING"
        self._result = None
        self._exc = None
        self._callbacks = []

    def __hash__(self):
        return self._hash

    def __eq__(self, other):
        return self is other

    def done(self):
        return self._state in ("FINISHED", "CANCELLED")

    def running(self):
        return self._state == "RUNNING"

    def cancelled(self):
        return self._state == "CANCELLED"

    def cancel(self):
        if self._state == "PENDING":
            self._state = "CANCELLED"
            self._exc = cf.CancelledError()
            self._run_callbacks()
            return True
        return self._state == "CANCELLED"

    def _finish(self, result=None, exc=None):
        if self.done():
            return
        self._result = result
        self._exc = exc
        self._state = "FINISHED"
        self._run_callbacks()

    def _run_callbacks(self):
        for fn in self._callbacks:
            try:
                fn(self)
            except Exception:
                pass
        self._callbacks = []

    def add_done_callback(self, fn):
        if self.done():
            fn(self)
        else:
            self._callbacks.append(fn)

    def _wait(self, timeout):
        sim = self._sim
        sim.point("result", self._seq)
        if not self.done():
            us = None if timeout is None else int(timeout * 1e6)
            sim.block(self.done, f"future {self._seq}", us)
        _interruptible(sim, "future")
        if not self.done():
            raise cf.TimeoutError()

    def result(self, timeout=None):
        self._wait(timeout)
        if self._exc is not None:
            try:
                raise self._exc
            finally:
                self = None
        return self._result

    def exception(self, timeout=None):
        self._wait(timeout)
        if self._state == "CANCELLED":
            raise cf.CancelledError()
        return self._exc


def _interruptible(sim, where):
    t = this_task()
    if sim.faults:
        f = sim.hit("after stmt", (t, "wait"))
        if f is not None and f.action is not None:
            f.action(t)
    sim.deliver_interrupt(where)


def sim_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    sim = Sim.active
    if sim is None or not all(isinstance(f, SimFuture) for f in fs):
        return real_wait(fs, timeout, return_when)
    sim.point("wait", len(fs))

    def pred():
        done = [f for f in fs if f.done()]
        if len(done) == len(fs):
            return True
        if return_when == cf.FIRST_COMPLETED:
            return bool(done)
        if return_when == cf.FIRST_EXCEPTION:
            return any(f._exc is not None for f in done)
        return False

    if not pred():
        sim.block(pred, "cf.wait", None if timeout is None else int(timeout * 1e6))
    _interruptible(sim, "cf.wait")
    done = {f for f in fs if f.done()}
    return DoneAndNotDone(done, fs - done)


def sim_as_completed(fs, timeout=None):
    fs = set(fs)
    sim = Sim.active
    if sim is None or not all(isinstance(f, SimFuture) for f in fs):
        yield from real_as_completed(fs, timeout)
        return
    pending = set(fs)
    end = None if timeout is None else sim.now + int(timeout * 1e6)
    while pending:
        sim.point("as_completed", len(pending))
        if not any(f.done() for f in pending):
            left = None if end is None else max(0, end - sim.now)
            sim.block(lambda: any(f.done() for f in pending), "as_completed", left)
        _interruptible(sim, "as_completed")
        ready = [f for f in pending if f.done()]
        if not ready:
            raise cf.TimeoutError(f"{len(pending)} (of {len(fs)}) futures unfinished")
        for f in ready:
            pending.discard(f)
            yield f


real_wait = cf.wait
real_as_completed = cf.as_completed
DoneAndNotDone = cf._base.DoneAndNotDoneFutures


class WorkerInit:
    pass


class SimPool(cf.Executor):
    """
    A pool of simulated worker processes.

    Arguments and results go through pickle, at submission or only when a
    worker takes the item (both happen with real process pools); items are
    taken in FIFO order by any idle worker; a worker that dies breaks the
    whole pool, as in concurrent.futures.
    """

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        sim = Sim.active
        if sim is None:
            raise HarnessError("SimPool outside a run")
        self._sim = sim
        self._max_workers = max_workers or sim.default_workers
        self._queue = []
        self._closed = False
        self._broken = None
        self._workers = []
        self._started = False
        self._late = sim.late_pickle
        self.inflight = 0
        self.on_submit = None
        self.name = f"p{len(sim.pools)}"
        self.busy = 0
        sim.pools.append(self)

    def submit(self, fn, /, *args, **kwargs):
        sim = self._sim
        sim.point("submit", getattr(fn, "__name__", "?"))
        if self._broken:
            raise cfp.BrokenProcessPool(self._broken)
        if self._closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        if sim.faults:
            f = sim.hit("submit", (fn, args))
            if f is not None:
                raise RuntimeError("cannot schedule new futures after interpreter shutdown")
        seq = sim.next_seq()
        fut = SimFuture(sim, seq, sim.ch.draw("hash", 1 << 16) * 4096 + seq % 4096)
        item = [fut, (fn, args, kwargs), None]
        if not self._late:
            self._pickle(item)
        self._queue.append(item)
        self.inflight += 1
        if sim.submit_hook is not None:
            sim.submit_hook(self, fn, args, fut)
        if not self._started:
            self._started = True
            for i in range(self._max_workers):
                self._workers.append(
                    sim.spawn(self._worker, f"{self.name}w{i}", daemon=True, kind="worker")
                )
        return fut

    def _pickle(self, item):
        try:
            item[2] = pickle.dumps(item[1])
        except Exception as e:
            item[0]._finish(exc=e)
        item[1] = None

    def _worker(self):
        sim = self._sim
        me = this_task()
        while True:
            if not self._queue and not (self._closed or self._broken):
                sim.block(lambda: self._queue or self._closed or self._broken, "idle")
            if self._broken or (self._closed and not self._queue):
                return
            item = self._queue.pop(0)
            fut = item[0]
            if fut.cancelled():
                self.inflight -= 1
                continue
            fut._state = "RUNNING"
            if item[2] is None and not fut.done():
                self._pickle(item)
            if fut.done():
                self.inflight -= 1
                continue
            self.busy += 1
            me.current_future = fut
            sim.point("task", fut._seq)
            try:
                self._run_item(fut, item[2])
            except SimKilled:
                self._worker_died()
                me.current_future = None
                raise
            finally:
                self.busy -= 1
                me.current_future = None

    def _run_item(self, fut, blob):
        sim = self._sim
        me = this_task()
        out = exc = None
        try:
            fn, args, kwargs = pickle.loads(blob)
            me.op = getattr(fn, "__name__", "?")
            if sim.faults:
                f = sim.hit("task", (fn, args))
                if f is not None:
                    f.action(me)
            res = fn(*args, **kwargs)
            if sim.faults:
                f = sim.hit("task end", (fn, args))
                if f is not None:
                    f.action(me)
            out = pickle.dumps(res)
            del res
        except (SimKilled, SimStop):
            raise
        except BaseException as e:
            try:
                e2 = pickle.loads(pickle.dumps(e))
            except BaseException:
                e2 = _Remote(repr(e))
            e2.__cause__ = _Remote(f"{type(e).__name__}: {e}")
            exc = e2
            e.__traceback__ = None
            del e
        fn = args = kwargs = None
        me.op = None
        if me.killed:
            sim.mark_dead(me)
            raise SimKilled()
        sim.point("done", fut._seq)
        self.inflight -= 1
        if exc is not None:
            sim.event("task error", repr(exc)[:80])
            fut._finish(exc=exc)
        else:
            fut._finish(result=pickle.loads(out))
        if sim.finish_hook is not None:
            sim.finish_hook(self, fut)

    def _worker_died(self):
        "A worker process ended abruptly: everything pending fails, everybody is terminated."
        sim = self._sim
        if sim.stopping or self._broken:
            return
        self.break_pool("A process in the process pool was terminated abruptly while the future was running or pending.")

    def break_pool(self, why):
        sim = self._sim
        self._broken = why
        sim.event("pool broken", self.name)
        futs = [i[0] for i in self._queue]
        self._queue = []
        for f in futs:
            f._finish(exc=cfp.BrokenProcessPool(why))
        for w in self._workers:
            f = getattr(w, "current_future", None)
            if f is not None:
                f._finish(exc=cfp.BrokenProcessPool(why))
            if w is not this_task():
                sim.kill_task(w)
        for p in self._running_futs():
            p._finish(exc=cfp.BrokenProcessPool(why))
        self.inflight = 0

    def _running_futs(self):
        return []

    def shutdown(self, wait=True, *, cancel_futures=False):
        sim = self._sim
        self._closed = True
        if cancel_futures:
            for item in list(self._queue):
                item[0].cancel()
            self._queue = []
        if wait and self._started and this_task() is not None:
            sim.block(lambda: all(w.state == DONE for w in self._workers), "pool shutdown")
            _interruptible(sim, "shutdown")


class _PoolFactory:
    "What hyperreal sees as ProcessPoolExecutor."

    def __new__(cls, *a, **kw):
        if Sim.active is None:
            raise HarnessError("process pool created outside a simulated run")
        return SimPool(*a, **kw)


# ---------------------------------------------------------------- locks


class SimLock:
    def __init__(self, sim, mgr=None, reentrant=False):
        self.sim = sim
        self.mgr = mgr
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant
        self.idx = len(sim.locks)
        sim.locks.append(self)

    def __reduce__(self):
        return (_lock_by_id, (self.idx,))

    def _check(self):
        if self.mgr is not None and not self.mgr.closed and self.sim.faults and self.sim.hit("lock", self.idx):
            self.mgr.closed = True
        if self.mgr is not None and self.mgr.closed:
            raise ConnectionRefusedError("[Errno 111] Connection refused")

    def acquire(self, block=True, timeout=None):
        sim = self.sim
        self._check()
        sim.point("lock", self.idx)
        self._check()
        t = this_task()
        if self.reentrant and self.owner is t:
            self.depth += 1
            return True
        if self.owner is not None:
            if not block:
                return False
            sim.probes["worker waited for write lock"] += 1
            us = None if timeout is None else int(timeout * 1e6)
            ok = sim.block(
                lambda: self.owner is None or (self.mgr is not None and self.mgr.closed),
                f"lock {self.idx}", us,
            )
            self._check()
            if self.owner is not None:
                return False
        self.owner = t
        self.depth = 1
        return True

    def release(self):
        t = this_task()
        if t.dead_set:
            return
        self._check()
        if self.owner is None:
            raise ValueError("semaphore or lock released too many times")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        self.sim.point("unlock", self.idx)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None


def _lock_by_id(i):
    return Sim.active.locks[i]


class SimManager:
    def __init__(self):
        self.closed = False
        self.sim = Sim.active
        self.sim.point("manager")
        if self.sim.faults and self.sim.hit("start", "manager"):
            raise BlockingIOError(11, "Resource temporarily unavailable")
        self.sim.managers.append(self)

    def _connected(self):
        if self.sim.faults and self.sim.hit("start", "lock"):
            self.closed = True
        if self.closed:
            raise ConnectionRefusedError("[Errno 111] Connection refused")

    def Lock(self):
        self._connected()
        return SimLock(self.sim, self)

    def RLock(self):
        self._connected()
        return SimLock(self.sim, self, reentrant=True)

    def shutdown(self):
        self.closed = True
        self.sim.event("manager shutdown")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def start(self, *a):
        pass


def _manager(*a, **kw):
    if Sim.active is None or this_task() is None:
        raise HarnessError("manager created outside a simulated run")
    return SimManager()


def _ctx_lock(self=None, *a, **kw):
    return SimLock(Sim.active)


def _ctx_rlock(self=None, *a, **kw):
    return SimLock(Sim.active, reentrant=True)


# ---------------------------------------------------------------- time, temp

real_sleep = time.sleep
real_time = time.time
real_monotonic = time.monotonic
real_perf = time.perf_counter


def _sleep(s):
    sim = Sim.active
    if sim is not None and this_task() is not None:
        sim.sleep_us(int(s * 1e6))
    else:
        real_sleep(s)


def _time():
    sim = Sim.active
    if sim is not None and this_task() is not None:
        return 1700000000.0 + sim.now / 1e6
    return real_time()


def _monotonic():
    sim = Sim.active
    if sim is not None and this_task() is not None:
        return 1000.0 + sim.now / 1e6
    return real_monotonic()


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        sim = Sim.active
        if sim is None:
            return next(_fallback_names)
        return f"sim{sim.next_seq()}"


_fallback_names = tempfile._RandomNameSequence()
real_mkdtemp = tempfile.mkdtemp


def _mkdtemp(*a, **kw):
    sim = Sim.active
    if sim is not None and this_task() is not None and sim.faults and sim.hit("start", "mkdtemp"):
        raise OSError(28, "No space left on device")
    return real_mkdtemp(*a, **kw)



def _install():
    sqlite3.connect = sim_connect
    sqlite3.dbapi2.connect = sim_connect
    cf.wait = sim_wait
    cf.as_completed = sim_as_completed
    cf._base.wait = sim_wait
    cf._base.as_completed = sim_as_completed
    cf.ProcessPoolExecutor = _PoolFactory
    cfp.ProcessPoolExecutor = _PoolFactory
    cf.ThreadPoolExecutor = _PoolFactory
    mp.Manager = _manager
    multiprocessing.context.BaseContext.Manager = _manager
    multiprocessing.context.BaseContext.Lock = _ctx_lock
    multiprocessing.context.BaseContext.RLock = _ctx_rlock
    mp.Lock = _ctx_lock
    mp.RLock = _ctx_rlock
    atexit.register = lambda fn, *a, **k: fn
    time.sleep = _sleep
    time.time = _time
    time.monotonic = _monotonic
    tempfile._get_candidate_names = lambda: _Names()
    tempfile.mkdtemp = _mkdtemp
    random.Random.seed = _seed
    os.urandom = _urandom
    random._urandom = _urandom


real_seed = random.Random.seed
real_urandom = os.urandom


def _seed(self, a=None, version=2):
    "Generators without a seed take one that the run decides, different each time."
    if a is None and Sim.active is not None:
        a = Sim.active.next_entropy()
    real_seed(self, a, version)


def _urandom(n):
    sim = Sim.active
    if sim is None:
        return real_urandom(n)
    return b"".join(sim.next_entropy().to_bytes(8, "big") for _ in range(n // 8 + 1))[:n]


def install():
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    import random as _r
    import cherrypy  # noqa: F401  (real threads and locks of its own: import before patching)
    import networkx, lxml.html, jinja2, click.testing, dateutil.parser, regex  # noqa: F401
    _install()
    import hyperreal
    import hyperreal.corpus
    import hyperreal.index
    import hyperreal.server
    import hyperreal.cli
    where = os.path.dirname(os.path.abspath(hyperreal.__file__))
    if os.path.dirname(where) != os.path.abspath(repo):
        raise HarnessError(f"hyperreal imported from {where}, not {repo}")
    return hyperreal


def in_hyperreal(e):
    "Where in hyperreal an exception was raised, or None if it was raised elsewhere."
    import traceback
    import hyperreal
    root = os.path.dirname(os.path.abspath(hyperreal.__file__))
    frames = [(f.f_code.co_filename, n) for f, n in traceback.walk_tb(e.__traceback__)]
    if frames and os.path.abspath(frames[-1][0]).startswith(root):
        return f"{os.path.basename(frames[-1][0])}:{frames[-1][1]}"
    return None


# ---------------------------------------------------------------- scratch

_scratch_base = None


def scratch_base():
    global _scratch_base
    if _scratch_base is None:
        for d in ("/dev/shm", "/tmp"):
            try:
                st = os.statvfs(d)
                if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 300 << 20:
                    _scratch_base = tempfile.mkdtemp(prefix=f"hrdst-{os.getpid()}-", dir=d)
                    break
            except OSError:
                continue
        else:
            raise HarnessError("no scratch space")
    return _scratch_base


def drop_scratch():
    global _scratch_base
    if _scratch_base:
        shutil.rmtree(_scratch_base, ignore_errors=True)
        _scratch_base = None


class World:
    """One simulated run: scratch directory, simulator and its knobs."""

    counter = itertools.count()

    def __init__(self, seed, replay=None, keep_log=False, max_steps=400000):
        self.dir = os.path.join(scratch_base(), f"r{next(World.counter)}")
        os.makedirs(self.dir)
        self.tmp = os.path.join(self.dir, "tmp")
        os.makedirs(self.tmp)
        self.data = os.path.join(self.dir, "d")
        os.makedirs(self.data)
        self.ch = Choices(seed, replay)
        VFS.reset(seed)
        real_seed(random._inst, seed)
        self.sim = sim = Sim(self.ch, VFS, max_steps=max_steps, keep_log=keep_log)
        sim.pools = []
        sim.locks = []
        sim.managers = []
        sim.default_workers = 2
        sim.late_pickle = False
        sim.submit_hook = None
        sim.finish_hook = None
        sim.conn_hook = None
        sim.world = self
        self.n_img = 0

    def run(self, fn):
        old = tempfile.tempdir
        tempfile.tempdir = self.tmp
        gc.collect()
        gc.disable()
        try:
            return self.sim.run_root(fn)
        finally:
            tempfile.tempdir = old
            VFS.stop_log()
            VFS.hook_reads(0)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def image_dir(self):
        self.n_img += 1
        return os.path.join(self.dir, f"img{self.n_img}")


class oracle:
    "Code under this context belongs to the checker: no faults, no scheduling, no logging."

    def __enter__(self):
        self.task = this_task()
        VFS.set_oracle(1)
        import kernel
        kernel.current.task = None

    def __exit__(self, *a):
        import kernel
        kernel.current.task = self.task
        VFS.set_oracle(0)
