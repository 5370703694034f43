"""Revert each fix in a scratch copy: its check must report what it repaired.

usage: reverts.py [commit...]
"""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    only = sys.argv[1:]
    for e in json.load(open(f"{ROOT}/known_findings.json")):
        c, prop = e["commit"], e["property"]
        if e["status"] != "fixed" or only and c not in only:
            continue
        d = f"/tmp/rev/{c}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs("/tmp/rev", exist_ok=True)
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        r = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", c], cwd=d, capture_output=True, text=True)
        if r.returncode:
            print(f"CONFLICT {c} {prop} {e['entry'][30:100]}", flush=True)
            shutil.rmtree(d, ignore_errors=True)
            continue
        env = {**os.environ, "VERIF_REPO": d}
        for p in [prop]:
            out = f"/tmp/rev/{c}.{p}.out"
            with open(out, "w") as f:
                rc = subprocess.run(["/opt/venv/bin/python", "dst/run.py", "check", p], cwd=ROOT, env=env, stdout=f, stderr=subprocess.STDOUT).returncode
            v = [l for l in open(out) if l.startswith("violation")]
            print(f"{'CAUGHT' if rc == 1 else 'MISSED'} {c} {p} rc={rc} {v[0].strip()[:110] if v else ''}", flush=True)
        shutil.rmtree(d, ignore_errors=True)


main()
