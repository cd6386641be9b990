#!/usr/bin/env python3
"""Behaviour-preserving edits: each is applied to a scratch copy of /repo/src and the checks of the listed properties
run against it (PYMECH_SRC); they must stay quiet.  Usage: quiet.py [-j N] [NAME ...]   (not a registered check)"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from quiet_edits import EDITS


def run(name):
    e = EDITS[name]
    tmp = tempfile.mkdtemp(prefix="quiet_", dir="/tmp")
    out = []
    try:
        shutil.copytree("/repo/src", tmp + "/src")
        shutil.copytree(HERE, tmp + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        for f, old, new in e["edits"]:
            p = tmp + "/src/pymech/" + f
            s = open(p).read()
            if s.count(old) < 1:
                return name, ["EDIT DOES NOT APPLY: " + old[:80]]
            open(p, "w").write(s.replace(old, new) if e.get("all") else s.replace(old, new, 1))
        for pid in e["props"]:
            r = subprocess.run(["python3", "check.py", pid], cwd=tmp + "/verif", env=dict(os.environ, PYMECH_SRC=tmp + "/src", VERIF_SEED="1", VERIF_JOBS="3"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = [l for l in r.stdout.splitlines() if l.startswith((pid, "VIOLATION", "failed obl", "  undecided"))]
            out.append(f"{pid} exit {r.returncode}: " + " | ".join(x[:230] for x in last[:4]))
    finally:
        shutil.rmtree(tmp)
    return name, out


if __name__ == "__main__":
    args = sys.argv[1:]
    j = 2
    if args[:1] == ["-j"]:
        j = int(args[1]); args = args[2:]
    names = args or list(EDITS)
    with ThreadPoolExecutor(j) as ex:
        for name, out in ex.map(run, names):
            print("==", name)
            for o in out:
                print("  ", o)
            sys.stdout.flush()
