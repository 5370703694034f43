"""
The simulation kernel: choices, tasks, the simulated clock and faults.

One run is one object of class Sim.  Everything that is not determined by the
code under test is drawn from `Choices`: recorded streams of small integers in
which 0 always means "the plainest thing" (carry on with the current task, no
fault, the smallest value).  A run is a pure function of those streams and the
code; replaying the recorded streams repeats it exactly, and minimising a
failure means making the streams shorter and closer to 0.

Tasks are real threads, parked and released one at a time: the thread that is
not parked holds the baton, and only `Sim` decides who gets it next.
"""

import collections
import heapq
import random
import threading
import traceback
import zlib


class SimKilled(BaseException):
    "Unwinds a task whose (simulated) process was killed."


class SimStop(BaseException):
    "Unwinds the root task once the run has been decided (deadlock, step bound)."


class HarnessError(Exception):
    "The simulator, not the code under test, is wrong."


class Violation(Exception):
    def __init__(self, prop, cls, detail=""):
        super().__init__(f"{prop}/{cls}: {detail}")
        self.prop = prop
        self.cls = cls
        self.detail = detail


class Stuck(Exception):
    "Code under test runs on without ever reaching a scheduling point."


class Choices:
    """Recorded streams of integers; 0 is always the plainest choice."""

    def __init__(self, seed, replay=None):
        self.seed = seed
        self.replay = replay
        self.rngs = {}
        self.rec = collections.OrderedDict()
        self.pos = {}

    def _raw(self, stream, gen, hi):
        rec = self.rec.get(stream)
        if rec is None:
            rec = self.rec[stream] = []
        if self.replay is not None:
            src = self.replay.get(stream)
            i = len(rec)
            v = src[i] if src is not None and i < len(src) else 0
            if v >= hi:
                v = v % hi
        else:
            rng = self.rngs.get(stream)
            if rng is None:
                rng = self.rngs[stream] = random.Random(
                    (self.seed << 32) ^ zlib.crc32(stream.encode())
                )
            v = gen(rng)
        rec.append(v)
        return v

    def draw(self, stream, n):
        "Uniform in [0, n)."
        if n <= 1:
            return 0
        return self._raw(stream, lambda r: r.randrange(n), n)

    def flag(self, stream, p):
        "1 with probability p."
        return self._raw(stream, lambda r: 1 if r.random() < p else 0, 2)

    def biased(self, stream, n, p_other):
        "0 with probability 1 - p_other, else uniform in [1, n)."
        if n <= 1:
            return 0
        return self._raw(
            stream, lambda r: 0 if r.random() >= p_other else r.randrange(1, n), n
        )

    def pick(self, stream, seq):
        return seq[self.draw(stream, len(seq))]

    def weighted(self, stream, weights):
        "Index drawn with the given integer weights."
        total = sum(weights)

        def gen(r):
            x = r.randrange(total)
            for i, w in enumerate(weights):
                if x < w:
                    return i
                x -= w

        return self._raw(stream, gen, len(weights))

    def sub(self, prefix):
        return Sub(self, prefix)

    def seed_int(self, stream):
        "A seed for code that needs its own generator."
        return self._raw(stream, lambda r: r.randrange(1 << 30), 1 << 30)

    def lists(self):
        out = {}
        for k, v in self.rec.items():
            v = list(v)
            while v and v[-1] == 0:
                v.pop()
            if v:
                out[k] = v
        return out


class Sub:
    "The same choices, every stream under a prefix (one prefix per operation)."

    def __init__(self, ch, name):
        self.ch = ch
        self.name = name

    def draw(self, n):
        return self.ch.draw(self.name, n)

    def flag(self, p):
        return self.ch.flag(self.name, p)

    def biased(self, n, p):
        return self.ch.biased(self.name, n, p)

    def pick(self, seq):
        return self.ch.pick(self.name, seq)

    def weighted(self, w):
        return self.ch.weighted(self.name, w)

    def seed_int(self):
        return self.ch.seed_int(self.name)

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.flag(p)]

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(len(seq))))
        return out


RUN, BLOCKED, DONE = 0, 1, 2


class Task:
    def __init__(self, sim, tid, name, fn, daemon, kind):
        self.sim = sim
        self.tid = tid
        self.name = name
        self.fn = fn
        self.kind = kind  # 'client', 'worker'
        self.daemon = daemon  # need not finish
        self.state = RUN
        self.pred = None
        self.until = None
        self.baton = threading.Lock()
        self.baton.acquire()
        self.killed = False
        self.dead_set = False
        self.interrupt = False
        self.stall = None
        self.result = None
        self.error = None
        self.op = None
        self.tb = None
        self.timed_out = False
        self.thread = None

    def __repr__(self):
        return f"<{self.name}>"


current = threading.local()


def this_task():
    return getattr(current, "task", None)


class Fault:
    __slots__ = ("kind", "category", "countdown", "match", "action", "fired", "persist", "at")

    def __init__(self, kind, category, countdown, match=None, action=None, persist=False):
        self.kind = kind
        self.category = category
        self.countdown = countdown
        self.match = match
        self.action = action
        self.fired = 0
        self.persist = persist
        self.at = None


class Sim:
    STEP_US = 100
    WATCHDOG_S = 90
    active = None

    def __init__(self, choices, vfs, max_steps=400000, keep_log=False):
        self.ch = choices
        self.vfs = vfs
        self.now = 0
        self.steps = 0
        self.max_steps = max_steps
        self.tasks = []
        self.seq = 0
        self.entropy = 0
        self.p_switch = 0.1
        self.faults = []
        self.fired = collections.Counter()
        self.armed = collections.Counter()
        self.probes = collections.Counter()
        self.sched_hash = 0
        self.log_hash = 0
        self.keep_log = keep_log
        self.log = [] if keep_log else collections.deque(maxlen=250)
        self.switches = 0
        self.commit_hook = None
        self.stmt_hook = None
        self.deadlock = None
        self.stopping = False
        self.on_statement = None
        self.stalls = 0
        self.recs = {}

    # ------------------------------------------------------------ log

    def event(self, kind, detail=""):
        t = this_task()
        name = t.name if t else "-"
        line = f"{self.steps} {self.now} {name} {kind} {detail}"
        self.log_hash = zlib.crc32(line.encode("utf-8", "replace"), self.log_hash)
        self.log.append(line)

    # ------------------------------------------------------------ tasks

    def next_seq(self):
        self.seq += 1
        return self.seq

    def next_entropy(self):
        "What the operating system's source of randomness gives next in this run."
        self.entropy += 1
        return zlib.crc32(b"%d/%d" % (self.ch.seed, self.entropy)) << 20 | self.entropy

    def spawn(self, fn, name, daemon=False, kind="client"):
        t = Task(self, len(self.tasks), name, fn, daemon, kind)
        self.tasks.append(t)
        t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
        t.thread.start()
        return t

    def _main(self, t):
        current.task = t
        t.baton.acquire()
        try:
            if not t.killed:
                t.result = t.fn()
        except SimKilled:
            pass
        except SimStop:
            pass
        except BaseException as e:
            t.error = e
            t.tb = traceback.format_exc()
        finally:
            t.state = DONE
            t.fn = None
            if t.dead_set:
                self.vfs.set_dead(0)
            self.event("end")
            self._pass_on(t)

    def run_root(self, fn):
        """Run fn as the root task; everything ends when it ends."""
        prev = Sim.active
        Sim.active = self
        self.root_done = threading.Lock()
        self.root_done.acquire()
        root = self.spawn(fn, "main")
        self.root = root
        root.baton.release()
        idle, seen = 0, -1
        while not self.root_done.acquire(timeout=self.WATCHDOG_S / 3):
            idle = idle + 1 if seen == self.steps else 0
            seen = self.steps
            if idle >= 3:
                raise Stuck(f"{self.steps} steps, then no further step in {self.WATCHDOG_S} s; tasks "
                            + ", ".join(f"{t.name}:{t.op}" for t in self.tasks if t.state != DONE))
        # Unwind whatever is left, one thread at a time.
        self.stopping = True
        for t in self.tasks:
            if t.state != DONE:
                t.killed = True
                self.unwind_lock = threading.Lock()
                self.unwind_lock.acquire()
                t.baton.release()
                if not self.unwind_lock.acquire(timeout=60):
                    raise HarnessError(f"task {t} does not unwind")
        for t in self.tasks:
            t.thread.join(60)
        Sim.active = prev
        if root.error is not None:
            raise root.error
        return root.result

    def _runnable(self):
        out = []
        for t in self.tasks:
            if t.state == RUN:
                out.append(t)
            elif t.state == BLOCKED:
                if t.killed:
                    out.append(t)
                elif t.interrupt and t.kind == "client":
                    out.append(t)
                elif t.pred is not None and t.pred():
                    out.append(t)
                elif t.until is not None and t.until <= self.now:
                    t.timed_out = True
                    out.append(t)
        return out

    def _choose(self, cur, may_stay):
        """The next task to hold the baton."""
        while True:
            cand = self._runnable()
            if cand:
                break
            sleepers = [t.until for t in self.tasks if t.state == BLOCKED and t.until is not None]
            if not sleepers:
                return None
            self.now = max(self.now, min(sleepers))
        if cur is not None and may_stay and cur in cand:
            cand.remove(cur)
            cand.insert(0, cur)
            i = self.ch.biased("sched", len(cand), self.p_switch)
        else:
            i = self.ch.draw("sched", len(cand))
        return cand[i]

    def _pass_on(self, t):
        "t has finished: hand the baton to somebody else."
        if self.stopping:
            self.unwind_lock.release()
            return
        if t is self.root:
            self.root_done.release()
            return
        nxt = self._choose(None, False)
        if nxt is None:
            self._deadlocked()
            nxt = self.root
        nxt.state = RUN
        self._note_switch(nxt)
        nxt.baton.release()

    def _deadlocked(self):
        self.deadlock = "; ".join(
            f"{t.name} in {t.op or t.wait_why}" for t in self.tasks if t.state != DONE
        )
        self.event("deadlock", self.deadlock)
        self.root.killed = True

    def _note_switch(self, t):
        self.switches += 1
        self.sched_hash = zlib.crc32(b"%d:%d;" % (t.tid, self.steps), self.sched_hash)

    def _after_resume(self, t):
        if t.killed:
            if self.deadlock and t is self.root:
                raise SimStop()
            self.mark_dead(t)
            raise SimKilled()

    def mark_dead(self, t):
        if not t.dead_set:
            t.dead_set = True
            self.vfs.set_dead(1)

    def point(self, kind, detail=""):
        "A scheduling point: somebody else may run here."
        t = this_task()
        if t is None:
            return
        if t.killed:
            self._after_resume(t)
        self.steps += 1
        self.now += self.STEP_US
        if self.steps > self.max_steps and not self.stopping:
            self.deadlock = f"no end after {self.steps} steps, last in {kind} {detail} by {t.name} ({t.op})"
            self.root.killed = True
            if t is self.root:
                raise SimStop()
        self.event(kind, detail)
        nxt = self._choose(t, True)
        if nxt is not t and nxt is not None:
            self._note_switch(nxt)
            nxt.state = RUN
            nxt.baton.release()
            t.baton.acquire()
            self._after_resume(t)

    def block(self, pred, why, timeout_us=None):
        "Wait until pred() or until the time is up.  True if pred held."
        t = this_task()
        if t.killed:
            self._after_resume(t)
        t.pred = pred
        t.until = None if timeout_us is None else self.now + timeout_us
        t.wait_why = why
        t.timed_out = False
        t.state = BLOCKED
        self.event("wait", why)
        self.steps += 1
        nxt = self._choose(t, False)
        if nxt is None:
            self._deadlocked()
            nxt = self.root
        nxt.state = RUN
        if nxt is not t:
            self._note_switch(nxt)
            nxt.baton.release()
            t.baton.acquire()
        t.pred = None
        t.until = None
        self._after_resume(t)
        return not t.timed_out or (pred is not None and pred())

    def sleep_us(self, us):
        self.stalls += 1
        self.block(None, "sleep", us)

    def kill_task(self, t):
        if t.state != DONE:
            t.killed = True

    def count_stall(self, t):
        "A client that is held up after a chosen statement until others got on."
        n, pred, timeout = t.stall
        if n > 0:
            t.stall = (n - 1, pred, timeout)
            return
        t.stall = None
        self.fired["stalled client"] += 1
        self.block(pred, "stalled", timeout)

    def deliver_interrupt(self, where):
        t = this_task()
        if t is not None and t.interrupt:
            t.interrupt = False
            self.event("KeyboardInterrupt", where)
            raise KeyboardInterrupt()

    def wait_tasks(self, tasks):
        for t in tasks:
            self.block(lambda t=t: t.state == DONE, f"join {t.name}")

    # ------------------------------------------------------------ faults

    def arm(self, fault):
        self.faults.append(fault)
        self.armed[fault.kind] += 1
        return fault

    def disarm(self):
        self.faults = []

    def hit(self, category, info=None):
        """An event of a category happens: the fault that fires there, or None."""
        got = None
        for f in self.faults:
            if f.category != category:
                continue
            if f.match is not None and not f.match(info):
                continue
            if f.fired:
                if f.persist and got is None:
                    f.fired += 1
                    got = f
                continue
            if f.countdown > 0:
                f.countdown -= 1
                continue
            if got is None:
                f.fired = 1
                f.at = self.steps
                self.fired[f.kind] += 1
                self.event("FAULT", f.kind)
                got = f
        return got
