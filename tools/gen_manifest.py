"""writes MANIFEST.json; the level of each claim is decided by hand in LEVEL"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NA = {"C23": "the GPU code (implicit/gpu: CUDA kernels and the _cuda extension) cannot be compiled or run here: no nvcc, "
             "no CUDA headers and no device; no installed deductive verifier has a front end for CUDA C++, and a contract on "
             "a hand-written C++ look-alike would prove a model and not the code"}
LEVEL = json.load(open(os.path.join(V, "tools", "levels.json")))
TECH = ("contracts on the functions of /repo; verification conditions generated from the current source on every run and "
        "decided by z3; bounded run-time contracts stand in where an obligation is out of reach")
out = {"version": 1, "setup_cmd": "./check --setup", "checks": [], "not_applicable": [],
       "notes": "no hooks in /repo; see DESIGN.md"}
for p in PROPS:
    i = p["id"]
    if i in NA:
        out["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    lv, note = LEVEL.get(i, ["exploration", "bounded run-time contracts only: no obligation of this property is discharged yet"])
    out["checks"].append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                          "thorough_cmd": "./check %s --tier thorough" % i, "technique": TECH,
                          "level": lv, "level_note": note})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
