"""Writes the "fixed" entries of known_findings.jsonl from /repo's fix: commits
(properties below, by subject) and keeps the "finding" entries as they are."""
import json, os, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS = json.load(open(os.path.join(V, "tools", "fix_properties.json")))
p = os.path.join(V, "known_findings.jsonl")
old = [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []
keep = [d for d in old if d["kind"] == "finding"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], stdout=subprocess.PIPE, text=True).stdout
new = []
for l in log.splitlines():
    h, s = l.split("\t", 1)
    if s.startswith("fix: "):
        s = s[5:]
        if s not in PROPS: sys.exit("no property for: " + s)
        # (undone fixes have no property)
        for q in PROPS[s].split():
            new.append({"property": q, "kind": "fixed", "commit": h, "what": s, "line": "fixed: property=%s %s %s" % (q, h, s)})
with open(p, "w") as f:
    for d in keep + new: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(keep), "findings,", len(new), "fixed")
