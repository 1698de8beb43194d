"""plant.py FILE: FILE is a python file defining BUGS = [dict(id, prop, edits=[(path, old, new)], demo, needs, breaks, files={name: text}, checks="P01 ...")].
Writes seeded/<id>/ and runs tools/seed.sh for each (skips existing ids unless named in argv[2:])."""
import json, os, subprocess, sys
ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
R = "/tmp/seedrepo"
if not os.path.isdir(R): subprocess.run(["cp", "-a", "/repo", R], check=True)
head = lambda d: subprocess.run(["git", "-C", d, "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True).stdout
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
if head(R) != head("/repo"): subprocess.run("git -C /tmp/seedrepo pull -q /repo HEAD", shell=True, check=True)
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    D = "/verif/seeded/" + b["id"]
    if not only and os.path.exists(D + "/meta.json"): continue
    print("=====", b["id"], flush=True)
    os.makedirs(D, exist_ok=True)
    ok = True
    for p, old, new in b["edits"]:
        s = open(R + "/" + p).read()
        if s.count(old) != 1: print("edit matches", s.count(old), "times:", old[:80]); ok = False; break
        open(R + "/" + p, "w").write(s.replace(old, new))
    if ok:
        open(D + "/demo.sh", "w").write(b["demo"].lstrip("\n"))
        for n, t in b.get("files", {}).items(): open(D + "/" + n, "w").write(t.lstrip("\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(D + "/meta.json", "w"), indent=1)
        subprocess.run(["bash", "/verif/tools/seed.sh", b["id"]] + b.get("checks", b["prop"]).split())
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
