import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import levels
NA = {
 "C26": "the result of a floating-point Newton iteration over log and powers: convergence and accuracy of this iteration for every argument is outside the theories of the available back ends, and treating floats as reals would not say anything about it",
 "C27": "vtksuite needs tvtk/mayavi, which is not installed here: the code can neither be run nor its dependencies' contracts be checked",
}
notes = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks = []
for p in levels.CLAIMED:
    lv = levels.level(p)
    t = {"proof": "contracts on the real Python functions, verification conditions generated from /repo's AST on every run, discharged by z3/cvc5",
         "other": "contracts on the real Python functions: VCs from /repo's AST discharged by z3/cvc5 for part of the statement, bounded evaluation of the same contracts for the rest",
         "exploration": "bounded evaluation of the contracts (pre/postconditions) on the real functions; stand-in, not a proof"}[lv]
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p + " --thorough",
                   "technique": t, "level": lv, "level_note": notes.get(p) or notes["default_" + lv]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo. See DESIGN.md; genuine defects found and fixed: KNOWN_FINDINGS.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
