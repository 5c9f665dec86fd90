"""writes MANIFEST.json from the list of checks and the reasons for what is not claimed"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the compiled LLVM IR, bit-blasted to SAT (kissat/cadical) or SMT (z3), counterexamples replayed natively"
NOTE = {}
NA = {
    "P06": "the undivided queries for __divsf3 and __divdf3 time out at 400 s (Newton iterations, non-linear in all operand bits); no case split was tried",
    "P20": "the undivided queries for fmaf16, fmaf and fma time out at 400 s (product of symbolic operands, alignment and rounding); no case split was tried",
    "P18": "not tried: the reduction loop runs once per unit of exponent difference, too many rounds to unroll for all operands",
    "P30": "accuracy in ULPs of transcendental functions: the reference is a real-valued transcendental function, which no "
           "bit-vector or real-arithmetic query available here can express for all inputs",
}
exec(open(os.path.join(V, "tools", "claims.py")).read())

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i,
                       "thorough_cmd": "python3-vt check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH, "level": "other", "level_note": CLAIMS[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "every check rebuilds /repo's working tree into /verif/build and encodes the IR of that build"}
if "HOOKS" in globals():
    m["hooks"] = HOOKS
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
