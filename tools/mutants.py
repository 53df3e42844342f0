#!/usr/bin/env python3
"""Sensitivity test of the checks (development only): apply one small change to a scratch copy of /repo and run checks on it.

usage: mutants.py [NAME-SUBSTRING ...] [--runs N]
"""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutant_list import MUTANTS  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    extra = []
    if "--runs" in args:
        i = args.index("--runs")
        extra = args[i:i + 2]
        del args[i:i + 2]
    missed = []
    for name, props, edits in MUTANTS:
        if args and not any(a in name or a in props for a in args):
            continue
        tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        try:
            shutil.copytree("/repo/zoidberg", tmp + "/zoidberg")
            if isinstance(edits, str):  # undo a commit
                d = subprocess.run(["git", "-C", "/repo", "diff", "-R", edits + "^", edits], capture_output=True).stdout
                r = subprocess.run(["patch", "-p1", "-s", "-d", tmp, "--no-backup-if-mismatch"], input=d, capture_output=True)
                if r.returncode:
                    print(name, "does not apply:", r.stdout.decode()[:200])
                    continue
            for f, old, new in edits if not isinstance(edits, str) else ():
                p = f"{tmp}/zoidberg/{f}"
                s = open(p).read()
                if old not in s:
                    print(name, "does not apply:", old[:60])
                    break
                open(p, "w").write(s.replace(old, new, 1))
            else:
                for prop in props:
                    if args and prop not in args and any(a.upper() == a and a.startswith("C") and len(a) == 3 for a in args):
                        continue
                    r = subprocess.run([sys.executable, VERIF + "/check.py", prop, "--no-evidence", *extra], capture_output=True, text=True,
                                       env=dict(os.environ, ZOIDSIM_REPO=tmp))
                    lines = r.stdout.strip().splitlines()
                    tell = next((q for q in lines if q.startswith("run ")), lines[-1] if lines else r.stderr[-300:])
                    print(f"{name:34} {prop} {'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR'} {tell[:150]}", flush=True)
                    if r.returncode != 1:
                        missed.append((name, prop))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    print("missed:", missed)


main()
