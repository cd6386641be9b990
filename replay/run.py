"""Concrete layer: run the contracts of a property on the real code over bounded cases.

usage: run.py PID --tier quick --seed 1 --out OUT.json [--replay FILE] [--budget SECONDS] [--extra CASES.json]
OUT.json: {"cases": n, "distinct": n, "samples": [...], "violations": [{"case":..., "message":...}]}
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

import util as U
import numpy as np
import warnings

warnings.simplefilter("ignore")
np.seterr(all="ignore")


def load(pid):
    mods = []
    for m in ("o_files", "o_mesh"):
        mod = __import__(m)
        mods.append(mod)
        if hasattr(mod, "run_" + pid):
            return getattr(mod, "gen_" + pid), getattr(mod, "run_" + pid)
    raise SystemExit("no oracle for " + pid)


def one(run, case):
    try:
        run(case)
    except U.Bad as e:
        return str(e)
    except SystemExit:
        return "the code under test called exit"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if U.SRC in f.filename]
        if not inside:
            # the oracle tripped over what the code returned
            if not isinstance(e, (TypeError, ValueError, IndexError, AttributeError, KeyError, AssertionError)):
                raise
            f = tb[-1]
            return f"the result does not have the stated form: {type(e).__name__}: {e} (in the oracle, {os.path.basename(f.filename)}:{f.lineno})"
        f = inside[-1]
        return f"unexpected {type(e).__name__}: {e} (raised at {f.filename.replace(U.SRC, 'src')}:{f.lineno} in {f.name})"
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--extra")
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--rounds-s", type=float, default=0, help="repeat the generator with further seeds for this long")
    ap.add_argument("--jobs", type=int, default=1, help="processes that share the further rounds")
    ap.add_argument("--part", type=int, default=0, help="(internal) run only the rounds of this process")
    a = ap.parse_args()
    gen, run = load(a.pid)
    if a.replay:
        d = json.load(open(a.replay))
        msg = one(run, d["case"])
        print("VIOLATED: " + msg if msg else "holds on this case")
        sys.exit(1 if msg else 0)
    t0 = time.time()
    res = {"cases": 0, "distinct": 0, "samples": [], "violations": [], "cut": False}
    seen = set()

    helpers = []
    if a.jobs > 1 and a.rounds_s:
        tmp = tempfile.mkdtemp()
        for i in range(1, a.jobs):
            f = os.path.join(tmp, f"{i}.json")
            p = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), a.pid, "--tier", a.tier, "--seed", str(a.seed), "--budget", str(a.budget),
                                  "--rounds-s", str(a.rounds_s), "--part", str(i), "--out", f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            helpers.append((p, f))

    def cases():
        if a.extra:
            yield from json.load(open(a.extra))
        if not a.part:
            yield from gen(np.random.default_rng([a.seed, int(a.pid[1:])]), a.tier)
        k, t1 = 10**6 * a.part, time.time()
        while time.time() - t1 < a.rounds_s:
            k += 1
            n0 = res["distinct"]
            for c in gen(np.random.default_rng([a.seed, int(a.pid[1:]), k]), a.tier):
                if time.time() - t1 >= a.rounds_s:
                    return
                if c.get("light"):
                    continue
                if json.dumps(c, sort_keys=True) not in seen:
                    yield c
            if res["distinct"] == n0:
                return

    for c in cases():
        key = json.dumps(c, sort_keys=True)
        res["cases"] += 1
        if key not in seen:
            seen.add(key)
            res["distinct"] += 1
        msg = one(run, c)
        if len(res["samples"]) < 3 or (res["cases"] % 40 == 0 and len(res["samples"]) < 6):
            res["samples"].append(c)
        if msg:
            res["violations"].append({"case": c, "message": msg})
            if len(res["violations"]) >= 3:
                break
        if time.time() - t0 > a.budget:
            res["cut"] = True
            break
    for p, f in helpers:
        if res["violations"]:
            p.terminate()
        if p.wait() == 0 and os.path.exists(f):
            d = json.load(open(f))
            res["cases"] += d["cases"]
            seen.update(d["keys"])
            res["violations"] += d["violations"]
            res["cut"] = res["cut"] or d["cut"]
    if helpers:
        shutil.rmtree(tmp, ignore_errors=True)
        res["distinct"] = len(seen)
        res["jobs"] = a.jobs
    if a.part:
        res["keys"] = sorted(seen)
    res["wall_s"] = round(time.time() - t0, 2)
    json.dump(res, open(a.out, "w") if a.out else sys.stdout)


main()
