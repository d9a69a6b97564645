"""MANIFEST.json from the checks present and properties.jsonl"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
TECH = json.load(open(V + "/tools/techniques.json"))
NA = TECH.pop("not_applicable", {})
checks = []; na = []
for p in props:
    i = p["id"]; f = "%s/checks/%s.py" % (V, i.lower())
    if i in NA or not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, "no check built yet"))); continue
    t = TECH.get(i, {})
    checks.append(dict(property=i, quick_cmd="./run.py %s" % i, thorough_cmd="./run.py %s --thorough" % i,
        technique=t.get("technique", "bounded symbolic execution of clang IR, decided by z3"), level="other",
        level_note=t.get("note", "Solver-decided for every value of the symbolic inputs at the listed sizes (see the evidence file's bounds); doubles as reals; SHTns and FFTW by their documented transforms; nothing is claimed for other sizes.")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks)
if na: m["not_applicable"] = na
m["notes"] = "Each check recompiles /repo/Source to LLVM IR on every run, executes it symbolically (engine/), and has z3 decide the obligations; counterexamples are replayed on a native build before they are reported. known_findings.txt lists recorded and repaired defects."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
