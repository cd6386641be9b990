#!/usr/bin/env python3
"""check.py PID: decide property PID for /repo's current source.

1. deductive layer (engine/): regenerates every proof obligation from /repo's source and discharges it;
2. concrete layer (replay/): evaluates the same contracts on the real code, on the engine's counterexamples
   and on bounded cases (this is the stand-in wherever an obligation is not discharged).
Exit 0: held on everything explored; 1: VIOLATION line printed; other: the check itself failed.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import levels

REALPY = os.environ.get("VERIF_REALPY", "/opt/venv/bin/python")
PROVEPY = os.environ.get("VERIF_PROVEPY", "/opt/veriftools/pyvenv/bin/python")
SRC = os.environ.get("PYMECH_SRC", "/repo/src")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    out = os.path.join(HERE, "evidence", "out")
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, PYMECH_SRC=SRC, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")

    # ---------------------------------------------------------- deductive layer
    proof = None
    contracts = os.path.join(HERE, "contracts", pid + ".py")
    pfile = os.path.join(out, pid + ".proof.json")
    if os.path.exists(contracts):
        if os.path.exists(pfile):
            os.remove(pfile)
        limit = 480 if tier == "quick" else 3000
        cmd = [PROVEPY, os.path.join(HERE, "engine", "prove.py"), pid, "--tier", tier, "--out", pfile, "--budget", str(limit - 60)]
        try:
            r = subprocess.run(cmd, env=env, timeout=limit, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            log = r.stdout
        except subprocess.TimeoutExpired as e:
            log = "deductive layer timed out\n" + str(e.stdout or "")[-2000:]
        if os.path.exists(pfile):
            proof = json.load(open(pfile))
        else:
            proof = {"functions": [], "obligations": [], "undecided": ["deductive layer gave no result: " + log[-1500:]], "assumptions": [], "models": []}

    # ---------------------------------------------------------- concrete layer
    proved = proof is not None and proof["obligations"] and all(o["status"] == "discharged" for o in proof["obligations"]) and not proof["undecided"]
    rfile = os.path.join(out, pid + ".replay.json")
    if os.path.exists(rfile):
        os.remove(rfile)
    cmd = [REALPY, "-B", os.path.join(HERE, "replay", "run.py"), pid, "--tier", tier, "--seed", str(seed), "--out", rfile]
    cmd += ["--budget", "330" if tier == "quick" else "2400"]
    # an obligation that is not discharged: look longer for a failing input; nothing under contract: a fixed time
    if not proved:
        failed = proof is not None and (pid in levels.PROOF or any(o["status"] != "discharged" for o in proof["obligations"]) or proof["undecided"])
        cmd += ["--rounds-s", str((120 if failed else 25) if tier == "quick" else 1200)]
    elif pid in levels.MIXED:
        # all obligations discharged, but they are not the whole statement: the rest is decided by the concrete layer
        cmd += ["--rounds-s", str((90 if pid == "C24" else 30) if tier == "quick" else 1200)]
    if pid == "C24":
        cmd += ["--jobs", "6"]
    models = (proof or {}).get("models") or []
    if models:
        mf = os.path.join(out, pid + ".models.json")
        json.dump(models, open(mf, "w"))
        cmd += ["--extra", mf]
    r = subprocess.run(cmd, env=env, timeout=max(60, 860 - (time.time() - t0)) if tier == "quick" else 3600, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(rfile):
        sys.stdout.write(r.stdout[-4000:])
        print(f"check {pid}: the concrete layer gave no result")
        sys.exit(3)
    rep = json.load(open(rfile))

    # ---------------------------------------------------------- verdict
    viol = []
    for i, v in enumerate(rep["violations"]):
        path = os.path.join(HERE, "evidence", "out", f"{pid}-violation-{i}.json")
        json.dump({"property": pid, "case": v["case"], "message": v["message"], "replay_cmd": f"PYMECH_SRC={SRC} {REALPY} replay/run.py {pid} --replay {os.path.relpath(path, HERE)}", "failed_obligations": [o for o in (proof or {"obligations": []})["obligations"] if o["status"] == "refuted"]}, open(path, "w"), indent=1)
        viol.append({"replay": os.path.relpath(path, HERE), "message": v["message"]})
        print("case:", json.dumps(v["case"])[:400])
        print("message:", v["message"][:1000])
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}")
        break
    refuted = [o for o in (proof or {"obligations": []})["obligations"] if o["status"] == "refuted"]
    if refuted and not viol:
        path = os.path.join(HERE, "evidence", "out", f"{pid}-obligation.json")
        json.dump({"property": pid, "failed_obligations": refuted}, open(path, "w"), indent=1)
        viol.append({"replay": os.path.relpath(path, HERE), "message": "obligation failed: " + refuted[0]["name"]})
        print("failed obligation:", refuted[0]["name"])
        print("solver:", str(refuted[0].get("detail", ""))[:1500])
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)} no-failing-input-found")

    # ---------------------------------------------------------- evidence
    ev = levels.evidence(pid, tier, seed, proof, rep, proved)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = len(viol)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if proof is not None:
        n = len(proof["obligations"])
        d = sum(o["status"] == "discharged" for o in proof["obligations"])
        print(f"{pid}: {d}/{n} obligations discharged; undecided parts: {len(proof['undecided'])}; {rep['cases']} concrete contract evaluations")
        for u in proof["undecided"]:
            print("  undecided (bounded stand-in decides):", u[:300])
    else:
        print(f"{pid}: {rep['cases']} bounded contract evaluations")
    sys.exit(1 if viol else 0)


main()
