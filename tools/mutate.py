"""Try many small changes to hyperreal against the checks.

usage: mutate.py FILE [name...]     FILE holds M(name, prop[,prop...], file, old, new) entries
"""
import os, re, shutil, subprocess, sys, time

REPO = "/repo"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = {}


def M(name, props, file, *edits):
    assert name not in MUT, name
    MUT[name] = (props.split(","), file, edits)


def build(name):
    props, file, edits = MUT[name]
    d = f"/tmp/mut/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ("hyperreal", "tests", "pyproject.toml", "README.md"):
        s = os.path.join(REPO, x)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(d, x), ignore=shutil.ignore_patterns("__pycache__"))
        elif os.path.exists(s):
            shutil.copy(s, d)
    p = os.path.join(d, "hyperreal", file)
    s = open(p).read()
    for i in range(0, len(edits), 2):
        old, new = edits[i], edits[i + 1]
        if s.count(old) != 1:
            return None, f"{name}: text found {s.count(old)} times: {old[:60]!r}"
        s = s.replace(old, new)
    open(p, "w").write(s)
    return d, None


def main():
    exec(open(sys.argv[1]).read(), globals())
    names = sys.argv[2:] or list(MUT)
    for n in names:
        d, err = build(n)
        if err:
            print(err, flush=True)
            continue
        out = []
        caught = False
        for prop in MUT[n][0]:
            t0 = time.time()
            e = dict(os.environ, VERIF_REPO=d)
            r = subprocess.run(["/opt/venv/bin/python", f"{ROOT}/dst/run.py", "check", prop, *(["--runs", os.environ["RUNS"]] if "RUNS" in os.environ else [])], env=e, capture_output=True, text=True)
            open(f"/tmp/mut/{n}.{prop}.out", "w").write(r.stdout + r.stderr)
            detail = ""
            m = re.search(r"^(.*violat.*|.*: .*)$", r.stdout.split("\n", 1)[1] if "\n" in r.stdout else "", re.M)
            for line in r.stdout.splitlines()[1:]:
                if line.strip() and not line.startswith("VIOLATION"):
                    detail = line.strip()[:150]
                    if "replay" not in line:
                        break
            out.append(f"{prop} rc={r.returncode} {time.time()-t0:.0f}s {detail}")
            caught |= r.returncode == 1
        tests = ""
        if os.environ.get("TESTS") or not caught:
            e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            r = subprocess.run(["timeout", "300", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "--ignore=tests/test_server.py",
                                "--deselect", "tests/test_cli.py::test_sx_corpus", "--deselect", "tests/test_index.py::test_field_intersection"], cwd=d, env=e, capture_output=True, text=True)
            tail = [l for l in r.stdout.splitlines() if l.strip()]
            tests = " tests: " + (tail[-1][:80] if tail else "?")
        print(("CAUGHT " if caught else "MISSED ") + n + "  " + " | ".join(out) + tests, flush=True)
        shutil.rmtree(d, ignore_errors=True)


main()
