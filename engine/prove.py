"""Deductive layer: generate the obligations of one property from the current source and discharge them."""
import argparse
import importlib.util
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import z3

import api
import simp
from terms import *
from interp import Obligation


def exact(fs):
    """formula without quantifiers and without functions whose axioms are only instantiated: a model is a real one"""
    for f in fs:
        for x in subterms(f):
            if z3.is_quantifier(x):
                return False
            if z3.is_app(x):
                d = x.decl()
                if d.eq(DIVF) or d.eq(MODF) or d.eq(SQRT) or d.eq(SIN) or d.eq(COS) or d.eq(ATAN) or d.eq(ROUND4):
                    return False
                if d.name().startswith(("sum_", "red_", "min", "max", "mean", "inv!")):
                    return False
                if d.kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                    return False
    return True


def discharge(o, timeout, deadline, cross, scale=1):
    t0 = time.time()
    g = to_z(o.goal) if not isinstance(o.goal, bool) else z3.BoolVal(o.goal)
    fs = [f for f in o.facts if isz(f)] + [z3.Not(g)]
    fs = fs + extra_instances(fs)
    if time.time() > deadline:
        o.status, o.detail = "undecided", "time budget"
        return
    nl = simp.nonlinear(fs)
    r, m = z3_check(fs, int(timeout * 1000) if not nl else min(2000 * scale, int(timeout * 1000)))
    o.backend = "z3"
    if r != z3.unsat and nl and simp.quantified(fs):
        fa, ab = simp.unit_abstraction(fs)
        if ab:
            r2, _ = z3_check(fa, 3000 * scale, False)
            if r2 == z3.unsat:
                r, o.backend = r2, "z3 (abstraction)"
    if r != z3.unsat and simp.quantified(fs):
        try:
            fq = simp.ground(fs)
        except z3.Z3Exception:
            fq = None
        if fq is not None:
            r2, _ = z3_check(fq, 2000 * scale)
            if r2 != z3.unsat:
                fq = [simp.canon(f) for f in fq]
                fq, _ = simp.divisions(fq + axioms_for(fq))
                fa, ab = simp.unit_abstraction(fq)
                r2, _ = z3_check(fa, 3000 * scale, False)
            if r2 == z3.unsat:
                r, o.backend = r2, "z3 (instances)"
    if r == z3.unknown and nl:
        fs = [simp.canon(f) for f in fs]
        fx = fs + axioms_for(fs)
        fx, div = simp.divisions(fx)
        fa, ab = simp.unit_abstraction(fx)
        r = z3.unknown
        if ab:
            r, _ = z3_check(fa, 3000 * scale, False)
            if r == z3.unsat:
                o.backend = "z3 (abstraction)"
        if r != z3.unsat:
            r, _ = z3_check(fx, int(timeout * 1000), False)
            if r != z3.unsat:
                r = z3.unknown
    if r == z3.unknown:
        r2 = cvc5_check(fs, timeout)
        if r2 is not None:
            o.backend = "cvc5"
            r = r2
            m = None
    if r == z3.unsat:
        o.status = "discharged"
        if cross:
            r2 = cvc5_check(fs, timeout)
            o.detail = "cvc5: " + ("agrees" if r2 == z3.unsat else "unknown" if r2 is None else "DISAGREES")
    elif r == z3.sat:
        # outside the exact fragment (axioms of sqrt, sums, quantifiers, ... are only instantiated) the model is a candidate
        o.status = "refuted"
        o.detail = ("model: " if exact(fs) else "candidate model (the query uses instantiated axioms): ") + (str(m)[:1500] if m is not None else "cvc5: sat")
    else:
        o.status = "undecided"
        o.detail = "solver: " + str(r)
    o.t = time.time() - t0


def discharge_all(obs, tmo, deadline, cross, scale=1, workers=8):
    """in forked workers (results come back over pipes)"""
    n = min(workers, (len(obs) + 19) // 20 if scale == 1 else len(obs))
    if n <= 1:
        for o in obs:
            discharge(o, tmo, deadline, cross, scale)
        return
    kids = []
    for w in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            with os.fdopen(wr, "w") as f:
                for i in range(w, len(obs), n):
                    o = obs[i]
                    try:
                        discharge(o, tmo, deadline, cross, scale)
                    except Exception as ex:
                        o.status, o.detail = "undecided", "solver layer: " + repr(ex)[:200]
                    f.write(json.dumps([i, o.status, o.backend, o.detail, o.t]) + "\n")
                    f.flush()
            os._exit(0)
        os.close(wr)
        kids.append((pid, rd))
    done = set()
    for pid, rd in kids:
        with os.fdopen(rd) as f:
            for line in f:
                try:
                    i, st, be, de, t = json.loads(line)
                except ValueError:
                    continue
                o = obs[i]
                o.status, o.backend, o.detail, o.t = st, be, de, t
                done.add(i)
        os.waitpid(pid, 0)
    for i, o in enumerate(obs):
        if i not in done:
            o.status, o.detail = "undecided", "solver worker ended early"


def extra_instances(fs):
    import lemmas

    return lemmas.instances(fs)


def cvc5_check(fs, timeout):
    try:
        import cvc5
    except ImportError:
        return None
    s = z3.Solver()
    for f in fs:
        s.add(f)
    for a in axioms_for(fs):
        s.add(a)
    txt = s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            o = str(out).strip() if out is not None else ""
            if o in ("sat", "unsat"):
                res = o
        return {"sat": z3.sat, "unsat": z3.unsat}.get(res)
    except Exception:
        return None


def run_case(a, name, fn, tmo, deadline, workers):
    """generate and discharge the obligations of one case"""
    t0 = time.time()
    col = api.Collector(a.pid, a.tier)
    col.case(name, fn)
    tgen = time.time() - t0
    cross = a.tier != "quick"
    discharge_all(col.obs, tmo, deadline, cross, workers=workers)
    again = [o for o in col.obs if o.status == "undecided"]
    if 0 < len(again) <= 24:
        # a busy machine: the same queries once more with longer limits
        discharge_all(again, 4 * tmo, deadline, False, 5, workers=workers)
    if any(o.kind == "loop" and o.status != "discharged" for o in col.obs):
        # the code is not what the contract of its loop says: that alone says nothing about the property, and neither do
        # counterexamples to what was derived from that contract
        for o in col.obs:
            if o.status == "refuted":
                o.status, o.detail = "undecided", "the contract of a loop does not hold: " + o.detail
    # canary: a false postcondition must not be provable
    bad = seen = 0
    for o in col.obs:
        if o.kind == "post" and seen < 3:
            seen += 1
            r, _ = z3_check([f for f in o.facts if isz(f)], 3000)
            if r == z3.unsat and not (o.goal is False or (isz(o.goal) and z3.is_false(o.goal))):
                bad += 1
    return {
        "name": name,
        "obs": [{"name": o.name, "status": o.status, "backend": o.backend, "t": round(o.t, 4), "kind": o.kind, "detail": o.detail} for o in col.obs],
        "undecided": col.undecided,
        "functions": sorted(col.functions),
        "assumptions": sorted(col.assumptions),
        "guards": col.guards,
        "canary": [bad, seen],
        "loops": len(col.loops),
        "tgen": round(tgen, 2),
        "t": round(time.time() - t0, 2),
    }


def run_cases(a, cases, jobs, tmo, deadline):
    """each case in a forked worker"""
    n = min(jobs, len(cases))
    if n <= 1:
        return [run_case(a, nm, fn, tmo, deadline, jobs) for nm, fn in cases]
    tr, tw = os.pipe()
    os.write(tw, bytes(range(len(cases))))
    os.close(tw)
    workers = max(1, jobs // n)
    kids = []
    for w in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            os.setpgid(0, 0)
            with os.fdopen(wr, "w") as f:
                while True:
                    b = os.read(tr, 1)
                    if not b:
                        break
                    r = run_case(a, *cases[b[0]], tmo, deadline, workers)
                    f.write(json.dumps([b[0], r]) + "\n")
                    f.flush()
            os._exit(0)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(wr)
        kids.append((pid, rd))
    out = {}
    import select
    import signal

    bufs = {rd: b"" for _, rd in kids}
    live = set(bufs)
    while live:
        left = deadline + 45 - time.time()
        if left <= 0:
            break
        for fd in select.select(list(live), [], [], left)[0]:
            d = os.read(fd, 1 << 16)
            if not d:
                live.discard(fd)
                continue
            bufs[fd] += d
            *lines, bufs[fd] = bufs[fd].split(b"\n")
            for line in lines:
                i, r = json.loads(line)
                out[i] = r
    for pid, rd in kids:
        if rd in live:
            os.killpg(pid, signal.SIGKILL)
        os.close(rd)
        os.waitpid(pid, 0)
    os.close(tr)
    lost = lambda nm: {"name": nm, "obs": [], "undecided": [nm + ": the worker ended early"], "functions": [], "assumptions": [], "guards": [], "canary": [0, 0], "loops": 0, "tgen": 0, "t": 0}
    return [out.get(i) or lost(cases[i][0]) for i in range(len(cases))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=300)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--case", default="", help="only the cases whose name contains this")
    a = ap.parse_args()
    t0 = time.time()
    deadline = t0 + a.budget
    path = os.path.join(os.path.dirname(HERE), "contracts", a.pid + ".py")
    sys.path.insert(0, os.path.dirname(path))
    spec = importlib.util.spec_from_file_location("contract_" + a.pid, path)
    mod = importlib.util.module_from_spec(spec)
    top = api.Collector(a.pid, a.tier)
    top.deferred = []
    spec.loader.exec_module(mod)
    mod.prove(top)
    cases = [c for c in top.deferred if a.case in c[0]]
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    tmo = 8 if a.tier == "quick" else 40
    parts = run_cases(a, cases, jobs, tmo, deadline)
    obs = [o for p in parts for o in p["obs"]]
    undecided = [u for p in parts for u in p["undecided"]]
    for o in obs:
        if a.v and o["t"] > 4:
            print("slow", o["name"], f"{o['t']:.1f}s", o["backend"])
        if a.v and o["status"] != "discharged":
            print(o["status"], o["name"], f"{o['t']:.1f}s", o["detail"][:300])
    bad, seen = sum(p["canary"][0] for p in parts), sum(p["canary"][1] for p in parts)
    nloops = sum(p["loops"] for p in parts)
    res = {
        "pid": a.pid,
        "functions": sorted({f for p in parts for f in p["functions"]}),
        "obligations": obs,
        "loop_obligations": nloops,
        "undecided": undecided + [o["name"] + ": " + o["detail"] for o in obs if o["status"] == "undecided"],
        "assumptions": sorted({x for p in parts for x in p["assumptions"]} | set(getattr(mod, "ASSUMPTIONS", []))),
        "guards": {
            "precondition": [f"{n}: {v}" for p in parts for n, v in p["guards"]],
            "canary": f"{bad} of {seen} postconditions examined have contradictory hypotheses",
            "loop_independence_obligations": nloops,
        },
        "bounded_part": getattr(mod, "BOUNDED", ""),
        "t_generate": round(sum(p["tgen"] for p in parts), 2),
        "t_total": round(time.time() - t0, 2),
    }
    if bad:
        res["undecided"].append("contradictory hypotheses")
    if any("CONTRADICTORY" in g for g in res["guards"]["precondition"]):
        res["undecided"].append("a precondition is contradictory")
    n = {}
    for o in obs:
        n[o["status"]] = n.get(o["status"], 0) + 1
    if a.v or not a.out:
        print(a.pid, n, "loops:", nloops, "undecided:", res["undecided"][:10], f"canary {bad}/{seen} {res['t_total']}s (gen {res['t_generate']}s)", {p["name"]: (p["tgen"], p["t"]) for p in parts} if a.v else "")
    if a.out:
        json.dump(res, open(a.out, "w"))


if __name__ == "__main__":
    main()
