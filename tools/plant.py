#!/usr/bin/env python3
"""Make seeded/<id>/{patch.diff,meta.json} from plants.py and try demo.sh on a scratch copy with and without the change.

usage: plant.py [ID ...] [--tests]   (--tests: also build and run the repository's tests with the change)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plants import PLANTS  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0: the property holds; run with the repository as working directory
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf -- "$scratch"' EXIT
repo="$(pwd)"
cd "$scratch" && HOME="$scratch" PYTHONPATH="$repo:$here" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 timeout 280 /opt/venv/bin/python "$here/demo.py"
"""


def demo(repo, pid):
    r = subprocess.run(["bash", f"{VERIF}/seeded/{pid}/demo.sh"], cwd=repo, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for pid, (prop, edits, needs, breaks) in PLANTS.items():
        if args and pid not in args:
            continue
        out = f"{VERIF}/seeded/{pid}"
        os.makedirs(out, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", tmp + "/repo"], check=True)
            repo = tmp + "/repo"
            for f, old, new in edits:
                p = f"{repo}/zoidberg/{f}"
                s = open(p).read()
                if s.count(old) < 1:
                    raise SystemExit(f"{pid}: does not apply: {old[:70]!r}")
                open(p, "w").write(s.replace(old, new, 1))
            d = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
            open(out + "/patch.diff", "w").write(d)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
            open(out + "/demo.sh", "w").write(DEMO)
            if os.path.exists(out + "/demo.py"):
                bad = demo(repo, pid)
                good = demo("/repo", pid)
                print(f"{pid:30} {prop} clean={good[0]} changed={bad[0]} {'ok' if good[0] == 0 and bad[0] else 'WRONG ' + str(good[1])} {bad[1]}", flush=True)
            if "--tests" in sys.argv:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "zoidberg"], cwd=repo, capture_output=True, text=True)
                print("   tests:", r.stdout.strip().splitlines()[-1], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
