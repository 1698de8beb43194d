"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
import importlib.util
spec = importlib.util.spec_from_file_location("ps", os.path.join(V, "tools", "properties_src.py")); ps = importlib.util.module_from_spec(spec); spec.loader.exec_module(ps)
TECH = getattr(ps, "TECH", {}); NOTE = getattr(ps, "NOTE", {}); NA = getattr(ps, "NA", {})
checks, na = [], []
for p in ps.P:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, "runtime monitoring: ASan+UBSan build under generated workloads, output judged by an executable reference model"),
            "level": "exploration",
            "level_note": NOTE.get(i, "Held on the seeded random executions counted in the evidence file; trusts the reference model in checks/%s.py, clang's sanitizers, lttoolbox, ICU and libxml2." % i)})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py --warm", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: every monitor observes program boundaries (streams, files, exit status, sanitizer reports) of an out-of-tree ASan+UBSan build of /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks;", len(na), "n/a")
