"""
Runs one check: python run.py check C01 [--tier quick|thorough]
Replays a failure: python run.py replay FILE
Single seed:      python run.py one C01 SEED [--log]
Determinism:      python run.py hashes C01 FIRST COUNT
"""

import argparse
import collections
import hashlib
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

N_SHARDS = int(os.environ.get("VERIF_SHARDS", "0")) or min(8, os.cpu_count() or 1)
REPLAYS = os.path.join(ROOT, "replays")


def load():
    import env
    env.install()
    import checks
    return env, checks


class Result:
    pass


def run_once(env, chk, seed, replay=None, keep_log=False, variant=None):
    """One simulated run.  Returns a Result; harness errors propagate."""
    from kernel import HarnessError, Stuck, Violation
    w = env.World(seed, replay, keep_log=keep_log, max_steps=chk.max_steps)
    w.prop = chk.prop
    w.trace = []
    w.nontrivial = False
    w.variant = variant
    w.outcome = None
    sim = w.sim
    sim.stores = []
    r = Result()
    r.violation = None
    r.stuck = False
    t0 = env.real_perf()
    try:
        try:
            w.run(lambda: chk.scenario(w))
        except Violation as v:
            r.violation = v
        except Stuck as e:
            r.stuck = True
            if chk.liveness:
                r.violation = Violation(chk.prop, "no progress", str(e))
            else:
                sim.probes["undecided: no progress"] += 1
        except HarnessError:
            raise
        except Exception as e:
            # an exception out of the code under test that no call expected
            where = env.in_hyperreal(e)
            if where is None:
                raise
            r.violation = Violation(chk.prop, "unexpected exception", f"{type(e).__name__}: {e} at {where}")
        if r.violation is None and sim.deadlock:
            if chk.liveness:
                r.violation = Violation(chk.prop, "no progress", sim.deadlock)
            else:
                sim.probes["undecided: no progress"] += 1
                w.nontrivial = False
        if r.violation is None and chk.after is not None:
            try:
                chk.after(w)
            except Violation as v:
                r.violation = v
    finally:
        w.close()
    r.seed = seed
    r.wall = env.real_perf() - t0
    r.steps = sim.steps
    r.now = sim.now
    r.switches = sim.switches
    r.fired = sim.fired
    r.armed = sim.armed
    r.probes = sim.probes
    r.sched_hash = sim.sched_hash
    r.log_hash = sim.log_hash
    r.log = list(sim.log)
    r.trace = w.trace
    r.nontrivial = w.nontrivial
    r.lists = w.ch.lists()
    r.outcome = w.outcome
    if r.violation is not None and r.violation.prop != chk.prop:
        # found by a shared oracle but about another property: not this check's business
        r.probes["other property: " + r.violation.prop] += 1
        r.violation = None
        r.nontrivial = False
    return r


# ---------------------------------------------------------------- minimising


def shrink(env, chk, seed, lists, cls, budget_s=45, max_tries=500):
    deadline = env.real_perf() + budget_s
    tries = 0
    best = {k: list(v) for k, v in lists.items()}

    def norm(d):
        out = {}
        for k, v in d.items():
            v = list(v)
            while v and v[-1] == 0:
                v.pop()
            if v:
                out[k] = v
        return out

    def bad(d):
        nonlocal tries
        tries += 1
        try:
            r = run_once(env, chk, seed, replay=d)
        except Exception:
            return None
        if r.violation is not None and r.violation.cls == cls:
            return r
        return None

    def over():
        return tries >= max_tries or env.real_perf() > deadline

    def attempt(d):
        nonlocal best
        d = norm(d)
        if d == best:
            return False
        if bad(d) is not None:
            best = d
            return True
        return False

    def weight(d):
        return sum(len(v) + sum(v) for v in d.values())

    best = norm(best)
    for _ in range(4):
        before = weight(best)
        for k in sorted(best, key=lambda k: (k in ("w",), k)):
            if over():
                break
            if k in best:
                attempt({x: v for x, v in best.items() if x != k})
        for k in sorted(best):
            size = max(1, len(best.get(k, ())) // 2)
            while size >= 1 and not over():
                i = 0
                while k in best and i < len(best[k]) and not over():
                    v = best[k]
                    chunk = v[i:i + size]
                    ok = False
                    if any(chunk):
                        ok = attempt({**best, k: v[:i] + [0] * len(chunk) + v[i + size:]})
                        if not ok and k != "sched":
                            ok = attempt({**best, k: v[:i] + v[i + size:]})
                    if not ok:
                        i += size
                    elif k in best and i < len(best[k]) and not any(best[k][i:i + size]):
                        i += size
                if size == 1:
                    break
                size //= 2
        for k in sorted(best):
            i = 0
            while k in best and i < len(best[k]) and not over():
                v = best[k]
                if v[i] > 1:
                    if not attempt({**best, k: v[:i] + [1] + v[i + 1:]}):
                        attempt({**best, k: v[:i] + [v[i] // 2] + v[i + 1:]})
                i += 1
        if over() or weight(best) >= before:
            break
    return best, tries


# ---------------------------------------------------------------- other processes
#
# Some orders are decided by the process itself: sets of texts are walked in an
# order that depends on PYTHONHASHSEED, and every worker process has its own.
# For checks that ask for it, the same seeds run in processes with different
# hash seeds, and what the scenario recorded as its outcome has to be the same.

HASHSEEDS = ["0", "4711"]


def serve():
    "Answer requests for single runs: one JSON object per line."
    env, checks = load()
    for line in sys.stdin:
        q = json.loads(line)
        chk = checks.get(q["prop"])
        try:
            r = run_once(env, chk, q["seed"], replay=q.get("streams"), keep_log=False)
        except Exception as e:
            print("ANSWER " + json.dumps({"error": repr(e)}), flush=True)
            continue
        print("ANSWER " + json.dumps({
            "outcome": None if r.violation is not None or r.stuck else r.outcome, "streams": r.lists, "trace": r.trace,
            "fired": dict(r.fired), "log_hash": r.log_hash}), flush=True)
        if r.stuck:
            break
    env.drop_scratch()


class Server:
    def __init__(self, hashseed):
        self.p = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__), "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, env=dict(child_env(), PYTHONHASHSEED=hashseed), start_new_session=True)

    def ask(self, prop, seed, streams=None):
        try:
            self.p.stdin.write(json.dumps({"prop": prop, "seed": seed, "streams": streams}) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            return {"error": "gone"}

    def answer(self):
        for line in self.p.stdout:
            if line.startswith("ANSWER "):
                return json.loads(line[7:])
        return {"error": "gone"}

    def close(self):
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        clean_scratch([self.p.pid])


def ask_both(servers, prop, seed, streams=None):
    for v in servers:
        v.ask(prop, seed, streams)
    return [v.answer() for v in servers]


def differ(a):
    return all(x.get("outcome") is not None for x in a) and a[0]["outcome"] != a[1]["outcome"]


def hashseed_runs(prop, base, index, count, cap):
    "Compare processes with different hash seeds."
    t0 = time.time()
    servers = [Server(h) for h in HASHSEEDS]
    n = 0
    try:
        for k in range(index, count, N_SHARDS):
            if time.time() - t0 > cap:
                break
            a = ask_both(servers, prop, base + k)
            if any(x.get("error") == "gone" for x in a):
                break
            n += all(x.get("outcome") is not None for x in a)
            if differ(a):
                path = os.path.join(REPLAYS, f"{prop}-hash-{base + k}.json")
                os.makedirs(REPLAYS, exist_ok=True)
                streams = minimise_pair(servers, prop, base + k, a[0]["streams"])
                b = ask_both(servers, prop, base + k, streams)
                if not differ(b):
                    streams, b = a[0]["streams"], a
                json.dump({
                    "property": prop, "violation": "different outcome", "seed": base + k, "streams": streams, "hashseeds": HASHSEEDS,
                    "detail": f"processes with PYTHONHASHSEED {HASHSEEDS} give different outcomes: {b[0]['outcome'][1]} and {b[1]['outcome'][1]}"[:1500],
                    "outcomes": [x["outcome"][0] for x in b], "minimised": True, "operations": b[0]["trace"], "faults": b[0]["fired"],
                }, open(path, "w"), indent=1)
                return n, path
    finally:
        for v in servers:
            v.close()
    return n, None


def minimise_pair(servers, prop, seed, lists, budget_s=25):
    end = time.time() + budget_s
    best = {k: list(v) for k, v in lists.items()}

    def attempt(d):
        nonlocal best
        if time.time() < end and differ(ask_both(servers, prop, seed, d)):
            best = d
            return True
        return False

    for k in sorted(best):
        if any(best.get(k, ())):
            attempt({x: v for x, v in best.items() if x != k})
    for k in sorted(best):
        size = max(1, len(best[k]) // 2)
        while size >= 1 and time.time() < end:
            for i in range(0, len(best[k]), size):
                v = best[k]
                if any(v[i:i + size]):
                    attempt({**best, k: v[:i] + [0] * len(v[i:i + size]) + v[i + size:]})
            size //= 2
    return best


# ---------------------------------------------------------------- one shard


def code_digest():
    h = hashlib.sha256()
    repo = os.environ.get("VERIF_REPO", "/repo")
    for d, _, names in sorted(os.walk(os.path.join(repo, "hyperreal"))):
        for n in sorted(names):
            if n.endswith((".py", ".html")):
                h.update(open(os.path.join(d, n), "rb").read())
    return h.hexdigest()[:16]


def shard(prop, tier, base, index, count, cap):
    env, checks = load()
    chk = checks.get(prop)
    known = load_known()
    total = 0
    t0 = env.real_perf()
    agg = {
        "runs": 0, "nontrivial": 0, "steps": 0, "sim_us": 0, "switches": 0,
        "fired": collections.Counter(), "armed": collections.Counter(), "probes": collections.Counter(),
        "scheds": set(), "logs": set(), "samples": [], "known": collections.Counter(), "capped": False,
        "traces": set(),
    }
    viol = None
    for k in range(index, count, N_SHARDS):
        if env.real_perf() - t0 > cap:
            agg["capped"] = True
            break
        seed = base + k
        r = run_once(env, chk, seed)
        if r.violation is None:
            BEFORE.append(seed)
        agg["runs"] += 1
        agg["steps"] += r.steps
        agg["sim_us"] += r.now
        agg["switches"] += r.switches
        agg["fired"].update(r.fired)
        agg["armed"].update(r.armed)
        agg["probes"].update(r.probes)
        if r.nontrivial:
            agg["nontrivial"] += 1
            agg["scheds"].add(r.sched_hash)
            agg["logs"].add(r.log_hash)
            if len(agg["samples"]) < 2:
                agg["samples"].append({"seed": seed, "steps": r.steps, "faults": dict(r.fired), "trace": r.trace[:25]})
        if r.violation is not None:
            f = match_known(known, prop, r)
            if f is not None:
                agg["known"][f["id"]] += 1
                continue
            viol = r
            break
        if r.stuck:
            agg["capped"] = True  # a thread of the code under test runs on: this process is done
            break
    if chk.hashseeds and viol is None:
        n, path = hashseed_runs(prop, base, index, min(count, chk.hashseeds[tier]), cap / 3)
        agg["probes"]["compared between processes with different hash seeds"] += n
        if path is not None:
            print("FOUND " + json.dumps({"path": path, "cls": "different outcome", "detail": "between processes with different hash seeds"}), flush=True)
            print("SHRUNK", flush=True)
    out = {
        k: (dict(v) if isinstance(v, collections.Counter) else sorted(v) if isinstance(v, set) else v)
        for k, v in agg.items()
    }
    out["wall"] = env.real_perf() - t0
    print("SHARD " + json.dumps(out), flush=True)
    if viol is not None:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{prop}-{viol.seed}.json")
        write_replay(path, chk, viol.seed, viol.lists, viol, minimised=False)
        print("FOUND " + json.dumps({"path": path, "cls": viol.violation.cls, "detail": viol.violation.detail[:400]}), flush=True)
        if viol.stuck:
            print("SHRUNK", flush=True)
            return
        best, tries = shrink(env, chk, viol.seed, viol.lists, viol.violation.cls)
        r = run_once(env, chk, viol.seed, replay=best)
        if r.violation is not None and r.violation.cls == viol.violation.cls:
            write_replay(path, chk, viol.seed, best, r, minimised=True, tries=tries, found=viol)
        print("SHRUNK", flush=True)
    env.drop_scratch()


def write_replay(path, chk, seed, lists, r, minimised, tries=0, found=None):
    with open(path + ".tmp", "w") as f:
        json.dump(
            {
                "property": chk.prop,
                "violation": r.violation.cls,
                "detail": r.violation.detail,
                "seed": seed,
                "streams": lists,
                "log_hash": r.log_hash,
                "minimised": minimised,
                "shrink_runs": tries,
                "pythonhashseed": os.environ.get("PYTHONHASHSEED"),
                "operations": r.trace,
                "faults": dict(r.fired),
                "events": r.log[-160:],
                "as_found": {"streams": (found or r).lists, "log_hash": (found or r).log_hash},
                "before": sorted(BEFORE),
            },
            f, indent=1,
        )
    os.replace(path + ".tmp", path)


BEFORE = []  # the seeds this process ran before


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get("status") == "open"]


def match_known(known, prop, r):
    for e in known:
        if e["property"] == prop and e["violation"] == r.violation.cls and all(
            s in r.violation.detail for s in e.get("detail_contains", [])
        ):
            return e
    return None


# ---------------------------------------------------------------- a check


def child_env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = e.get("VERIF_HASHSEED", "0")
    return e


def check(prop, tier, runs=None, cap=None):
    import vfs
    vfs.build()
    import checkdefs
    d = checkdefs.DEFS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    count = runs or d["runs"][tier]
    cap = cap or (float(os.environ.get("VERIF_CAP", 0)) or (170 if tier == "quick" else 700))
    base = seed * 10_000_000
    t0 = time.time()
    cmd = [sys.executable, os.path.abspath(__file__), "shard", prop, tier, str(base), "", str(count), str(cap)]
    procs = []
    for i in range(N_SHARDS):
        c = list(cmd)
        c[6] = str(i)
        procs.append(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=child_env(), text=True, start_new_session=True))
    import threading
    outs = [[] for _ in procs]
    errs = [[] for _ in procs]

    def reader(stream, sink):
        for line in stream:
            sink.append(line)

    threads = []
    for p, o, e in zip(procs, outs, errs):
        for st, sink in ((p.stdout, o), (p.stderr, e)):
            th = threading.Thread(target=reader, args=(st, sink), daemon=True)
            th.start()
            threads.append(th)
    found = None
    stop_at = None
    hard = t0 + cap + 120
    failed = []
    while True:
        alive = [p for p in procs if p.poll() is None]
        if found is None:
            for o in outs:
                for line in list(o):
                    if line.startswith("FOUND "):
                        found = json.loads(line[6:])
                        found["out"] = o
                        stop_at = time.time() + 75
                        break
                if found:
                    break
        if found and (any(l.startswith("SHRUNK") for l in found["out"]) or time.time() > stop_at):
            break
        if not alive:
            # drain
            for th in threads:
                th.join(5)
            if found is None and any(l.startswith("FOUND ") for o in outs for l in o):
                continue
            break
        if time.time() > hard:
            failed.append("shards did not end in time")
            break
        time.sleep(0.05)
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGTERM)
            except ProcessLookupError:
                pass
    for p in procs:
        try:
            p.wait(10)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    clean_scratch([p.pid for p in procs])
    for th in threads:
        th.join(5)
    shards = [json.loads(l[6:]) for o in outs for l in o if l.startswith("SHARD ")]
    if not found:
        for p, e in zip(procs, errs):
            if p.returncode != 0:
                failed.append("".join(e)[-2000:] or f"exit {p.returncode}")
    agg = merge(shards)
    wall = time.time() - t0
    write_evidence(prop, d, tier, seed, agg, wall, 1 if found else 0)
    for k, n in agg["known"].items():
        e = next(x for x in load_known() if x["id"] == k)
        print(f"KNOWN-FINDING: property={prop} {e['what']} ({n} runs)")
    print(
        f"{prop} {tier}: {agg['runs']} runs, {agg['nontrivial']} non-trivial, "
        f"{len(agg['scheds'])} distinct schedules, faults {dict(sorted(agg['fired'].items()))}, {wall:.1f}s"
    )
    if found:
        confirm(found)
        print(f"VIOLATION property={prop} replay={found['path']}")
        return 1
    if failed:
        print(f"{prop}: harness error\n" + "\n".join(failed[:2]), file=sys.stderr)
        return 2
    return 0


def confirm(found):
    """
    Repeat the violation in a fresh process: minimised, else as it was found,
    else after the runs that came before it.  What cannot be repeated at all
    comes from outside the seams (object addresses, say) and is still reported.
    """
    path = found["path"]
    d = json.load(open(path))
    forms = [d]
    if "as_found" in d:
        full = {**d, **d["as_found"], "minimised": False}
        forms.append(full)
        if d.get("before"):
            forms.append({**full, "history": d["before"][-400:]})
    for form in forms:
        form.pop("before", None)
        form.pop("as_found", None)
        with open(path, "w") as f:
            json.dump(form, f, indent=1)
        try:
            rep = subprocess.run([sys.executable, os.path.abspath(__file__), "replay", path], env=child_env(), capture_output=True, text=True, timeout=240)
        except subprocess.TimeoutExpired:
            continue
        if rep.returncode in (1, 4):
            print(rep.stdout.strip()[-3000:])
            return
        print(rep.stderr[-1000:])
    with open(path, "w") as f:
        json.dump({**forms[0], "repeated": False}, f, indent=1)
    print(f"seen, but not repeated by a replay in a fresh process: {found['cls']}: {found['detail']}")


def clean_scratch(pids):
    import glob
    import shutil
    for d in ("/dev/shm", "/tmp"):
        for pid in pids:
            for p in glob.glob(f"{d}/hrdst-{pid}-*"):
                shutil.rmtree(p, ignore_errors=True)


def merge(shards):
    agg = {
        "runs": 0, "nontrivial": 0, "steps": 0, "sim_us": 0, "switches": 0, "wall": 0.0,
        "fired": collections.Counter(), "armed": collections.Counter(), "probes": collections.Counter(),
        "known": collections.Counter(), "scheds": set(), "logs": set(), "samples": [], "capped": False,
    }
    for s in shards:
        for k in ("runs", "nontrivial", "steps", "sim_us", "switches"):
            agg[k] += s[k]
        agg["wall"] = max(agg["wall"], s["wall"])
        for k in ("fired", "armed", "probes", "known"):
            agg[k].update(s[k])
        agg["scheds"].update(s["scheds"])
        agg["logs"].update(s["logs"])
        agg["samples"].extend(s["samples"])
        agg["capped"] = agg["capped"] or s["capped"]
    return agg


def write_evidence(prop, d, tier, seed, agg, wall, violations):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    hours = max(wall, 1e-6) / 3600
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": d["level"],
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["logs"]),
            "rule": d["rule"]
            + " A run counts once per distinct event log (every scheduling point, statement, commit and fault, in order).",
            "samples": agg["samples"][:4],
            "simulated_runs": agg["runs"],
            "runs_and_seeds_per_hour": round(agg["runs"] / hours),
            "nontrivial_runs": agg["nontrivial"],
            "simulated_seconds": round(agg["sim_us"] / 1e6, 3),
            "scheduling_points": agg["steps"],
            "context_switches": agg["switches"],
            "distinct_schedules": len(agg["scheds"]),
            "faults_fired": dict(sorted(agg["fired"].items())),
            "faults_armed": dict(sorted(agg["armed"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "stopped_by_wall_cap": agg["capped"],
            "known_findings_seen": dict(agg["known"]),
            "real_components": d.get("real", REAL),
            "stub_components": d.get("stub", STUB),
        },
        "assumptions": d.get("assumptions", []) + ASSUME,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


REAL = [
    "hyperreal/*.py from /repo's working tree, unmodified",
    "SQLite 3 (the system library) with its real locking, WAL and rollback journal on real files in a scratch directory",
    "pyroaring, networkx, pickle, csv",
]
STUB = [
    "process pool and its workers (simulated processes in parked threads; arguments and results pickled)",
    "multiprocessing manager lock", "clock and sleeping", "randomness of temp names and of SQLite",
    "fsync, disk errors, crash and power loss (simvfs)",
]
ASSUME = [
    "Sampling, not enumeration: a clean run is evidence for the seeds explored.",
    "Preemption happens at SQL statements, pool and lock operations, document reads and SQLite sleeps; Python code between two of them runs as one step (worker processes share no memory, so nothing else can tell).",
]


def replay(path, log=False):
    env, checks = load()
    d = json.load(open(path))
    if "hashseeds" in d:
        return replay_pair(path, d)
    chk = checks.get(d["property"])
    for seed in d.get("history", ()):
        run_once(env, chk, seed)
    r = run_once(env, chk, d["seed"], replay=d["streams"], keep_log=True)
    env.drop_scratch()
    if log:
        print("\n".join(r.log))
    print(f"replay of {path} (seed {d['seed']}, minimised={d['minimised']})")
    for t in r.trace:
        print("  ", t)
    print("  faults:", dict(r.fired))
    if r.violation is None:
        print("no violation")
        return 0
    print(f"violation [{r.violation.cls}]: {r.violation.detail}")
    print("exact" if r.log_hash == d["log_hash"] else "event log differs from the recorded one")
    return 1 if r.violation.cls == d["violation"] else 4


def replay_pair(path, d):
    servers = [Server(h) for h in d["hashseeds"]]
    try:
        a = ask_both(servers, d["property"], d["seed"], d["streams"])
    finally:
        for v in servers:
            v.close()
    print(f"replay of {path} (seed {d['seed']}, processes with PYTHONHASHSEED {d['hashseeds']})")
    for t in a[0].get("trace", ()):
        print("  ", t)
    if not differ(a):
        print("no violation")
        return 0
    print(f"violation [different outcome]: {a[0]['outcome'][1]} and {a[1]['outcome'][1]}")
    print("exact" if [x["outcome"][0] for x in a] == d["outcomes"] else "outcomes differ from the recorded ones")
    return 1


def main():
    if os.environ.get("VERIF_FIXED") != "1":
        # the same hash seed, and the same addresses as far as the system allows
        e = dict(child_env(), VERIF_FIXED="1")
        if os.environ.get("PYTHONHASHSEED", "random") != "random":
            e["PYTHONHASHSEED"] = os.environ["PYTHONHASHSEED"]
        import ctypes
        try:
            ctypes.CDLL(None).personality(0x0040000)
        except (OSError, AttributeError):
            pass
        os.execve(sys.executable, [sys.executable, *sys.argv], e)
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd", required=True)
    p = sp.add_parser("check")
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--runs", type=int)
    p.add_argument("--cap", type=float)
    p = sp.add_parser("shard")
    p.add_argument("prop")
    p.add_argument("tier")
    p.add_argument("base", type=int)
    p.add_argument("index", type=int)
    p.add_argument("count", type=int)
    p.add_argument("cap", type=float)
    p = sp.add_parser("replay")
    p.add_argument("path")
    p.add_argument("--log", action="store_true")
    p = sp.add_parser("one")
    p.add_argument("prop")
    p.add_argument("seed", type=int)
    p.add_argument("--log", action="store_true")
    sp.add_parser("serve")
    p = sp.add_parser("hashes")
    p.add_argument("prop")
    p.add_argument("first", type=int)
    p.add_argument("count", type=int)
    a = ap.parse_args()
    if a.cmd == "check":
        tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        sys.exit(check(a.prop, tier, a.runs, a.cap))
    if a.cmd == "shard":
        signal.signal(signal.SIGTERM, lambda *x: os._exit(0))
        shard(a.prop, a.tier, a.base, a.index, a.count, a.cap)
        os._exit(0)
    if a.cmd == "serve":
        serve()
        os._exit(0)
    if a.cmd == "replay":
        rc = replay(a.path, a.log)
        sys.stdout.flush()
        os._exit(rc)
    env, checks = load()
    chk = checks.get(a.prop)
    if a.cmd == "one":
        r = run_once(env, chk, a.seed, keep_log=True)
        if a.log:
            print("\n".join(r.log))
        for t in r.trace:
            print("  ", t)
        print(dict(r.fired), dict(r.probes), f"{r.wall*1000:.0f} ms", r.steps, "steps", "nontrivial" if r.nontrivial else "trivial")
        print(r.violation or "ok")
    if a.cmd == "hashes":
        for s in range(a.first, a.first + a.count):
            r = run_once(env, chk, s)
            print(s, r.log_hash, r.sched_hash, r.steps, r.violation and r.violation.cls)
    env.drop_scratch()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
