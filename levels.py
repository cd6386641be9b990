"""Claimed level per property, and the evidence file."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
# proof: every obligation of the whole statement is discharged on the unchanged tree
PROOF = {"C01", "C02", "C03", "C04", "C05", "C09", "C10", "C11", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22"}
# other: part of the statement is discharged, the rest is decided by bounded evaluation of the same contracts
MIXED = {"C06", "C07", "C08", "C12", "C20", "C23", "C24", "C25"}

CLAIMED = ["C%02d" % i for i in range(1, 26)]

BOUNDED_ASSUMPTION = "the bounded part samples the input space; nothing is concluded about the inputs that were not evaluated"


def level(pid):
    return "proof" if pid in PROOF else "other" if pid in MIXED else "exploration"


def evidence(pid, tier, seed, proof, rep, proved):
    lv = level(pid)
    rule = ("Contract of the property evaluated on the real functions for generated arguments (replay/o_*.py, gen_%s; "
            "random draws seeded by VERIF_SEED). A case is distinct when its parameter record differs from all earlier ones; "
            "every generator only makes cases that satisfy the precondition and call the functions under contract." % pid)
    cov = {"evaluations": rep["cases"], "distinct_nontrivial": rep["distinct"], "rule": rule, "samples": rep["samples"][:4], "budget_cut": rep["cut"]}
    assumptions = []
    if proof is not None:
        obs = proof["obligations"]
        cov.update({
            "obligations": len(obs),
            "discharged": sum(o["status"] == "discharged" for o in obs),
            "refuted": sum(o["status"] == "refuted" for o in obs),
            "by_backend": {b: sum(o.get("backend") == b for o in obs) for b in sorted({o.get("backend") or "none" for o in obs})},
            "solver_s": round(sum(o.get("t", 0) for o in obs), 3),
            "functions_under_contract": proof["functions"],
            "undecided": proof["undecided"],
            "vacuity_guards": proof.get("guards", {}),
            "checker_cmd": "python3-vt engine/prove.py %s --tier %s (z3 in-process, cvc5 cross-check)" % (pid, tier),
            "trusted_base": proof["assumptions"],
            "bounded_part": proof.get("bounded_part", ""),
        })
        assumptions += proof["assumptions"]
    if lv == "exploration" or not proved:
        assumptions.append(BOUNDED_ASSUMPTION)
    if lv == "other":
        cov["explanation"] = (proof or {}).get("explanation", "") or "see functions_under_contract (discharged for all inputs) and bounded_part (bounded evaluation of the same contract)"
    return {"property": pid, "tier": tier, "seed": seed, "level": lv, "coverage": cov, "assumptions": assumptions}
