"""Run each seeded change's own check against a scratch copy of /repo with the change.

    python3 tools/seeded.py [ID ...]
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = sys.argv[1:] or sorted(os.listdir(f"{ROOT}/seeded"))
    for i in ids:
        p = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]
        d = f"/tmp/seeded/{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs("/tmp/seeded", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        subprocess.run(["git", "apply", f"{ROOT}/seeded/{i}/patch.diff"], cwd=d, check=True)
        t0 = time.time()
        r = subprocess.run(["/opt/venv/bin/python", f"{ROOT}/dst/run.py", "check", p], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        hit = f"VIOLATION property={p} " in r.stdout
        first = [l.strip() for l in r.stdout.splitlines()[1:] if l.strip() and not l.startswith("VIOLATION")]
        print("CAUGHT" if r.returncode == 1 and hit else "MISSED", i, p, f"rc={r.returncode} {time.time()-t0:.0f}s", (first or [""])[0][:160], r.stderr[-200:] if r.returncode not in (0, 1) else "", flush=True)
        shutil.rmtree(d, ignore_errors=True)


main()
