#!/usr/bin/env python3
"""Mutation sampling: which small source changes do the checks not notice?
usage: mutate.py N SEED [file ...]   (N mutants per file; log in /tmp/mut)
A development aid; the scratch copy is /tmp/mut/repo."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/mut/repo"; LOG = "/tmp/mut/log.jsonl"
files = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    for f in p["anchors"]["files"]: files.setdefault(f, []).append(p["id"])
size = {}
for v in files.values():
    for x in v: size[x] = size.get(x, 0) + 1
def order(f): return [c for c in sorted(files[f], key=lambda x: size[x]) if c != "S01"] or ["S01"]
OPS = [(r"==", ["!="]), (r"!=", ["=="]), (r"<=", ["<"]), (r">=", [">"]), (r" < ", [" <= "]), (r" > ", [" >= "]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]), (r"\bcontinue;", ["break;", ";"]), (r"\bbreak;", [";"]), (r"\+=", ["-=", "="]),
       (r"\.front\(\)", [".back()"]), (r"\.back\(\)", [".front()"]), (r"\bif *\((.*)\) *\{$", [r"if (!(\1)) {", r"if (false && (\1)) {"]),
       (r"\bmax\(", ["min("]), (r"\bmin\(", ["max("]), (r"'(.)'", ["'#'"]), (r'"([^"\\]+)"', ['"\\1#"', '""']),
       (r"^(\s*)([\w.\->\[\]]+(\(.*\)| [+\-]?= .*|\+\+|--));$", [r"\1;"]), (r"\breturn (.+);$", [r"return {};"]),
       (r"\bstop\b", ["start"]), (r"\bempty\(\)", ["size()"]), (r"/ ", ["* "]), (r" \* ", [" + "])]
XML = [(r'="yes"', ['="no"']), (r'="no"', ['="yes"']), (r"\*", ["+"]), (r"\+", ["*"]), (r"\[\^", ["["]), (r"\\\\", ["\\"]), (r"&gt;", [""]), (r"\b[a-z]{2,8}\b", ["zz"]), (r"\d+", ["1"])]
SH = [(r"==|=", ["!="]), (r"\bthen\b", ["then false;"]), (r"\$(\w+)", ["$X\\1", ""]), (r"-([a-z])\b", ["-z"]), (r"\|\|", ["&&"]), (r"\b[a-z]{3,10}\b", ["zz"])]
def mutants(path, text, n, r):
    ops = XML if path.endswith((".xml",)) else SH if path.endswith(".sh") else OPS
    lines = text.split("\n"); cand = []
    incom = False
    for i, l in enumerate(lines):
        s = l.strip()
        if "/*" in s: incom = True
        if incom:
            if "*/" in s: incom = False
            continue
        if not s or s.startswith(("//", "#", "*", "/*", "<!--", "using ", "case ")) or "cerr" in s or "assert" in s or "throw" in s: continue
        if path.endswith(".xsl") and not re.search(r"[;{(]", s): continue
        for pat, reps in ops:
            for m in re.finditer(pat, l):
                for rep in reps:
                    new = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if new != l: cand.append((i, pat, new))
    # spread over lines, then over operators
    out = []; seen = set(); r.shuffle(cand)
    for i, pat, new in cand:
        if i in seen: continue
        seen.add(i); out.append((i, new))
        if len(out) >= n: break
    return lines, out
def main():
    n, seed = int(sys.argv[1]), sys.argv[2]; which = sys.argv[3:] or sorted(files)
    os.makedirs("/tmp/mut", exist_ok=True)
    if os.path.exists(R): shutil.rmtree(R)
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    for f in ("config.h",): 
        for d in ("", "apertium/"):
            if os.path.exists("/repo/" + d + f): shutil.copy("/repo/" + d + f, R + "/" + d + f)
    subprocess.run("cd /repo && git ls-files -o -i --exclude-standard | grep -E '(apertium_config.h|config.h|\\.pc|Makefile)$' | cpio -pdm --quiet %s" % R, shell=True)
    env = dict(os.environ, VERIF_REPO=R, VERIF_SEED=seed if seed.isdigit() else "1", VERIF_TIER="quick", VERIF_FAST="1")
    for f in which:
        p = os.path.join(R, f)
        if not os.path.exists(p): continue
        text = open(p, encoding="utf8").read()
        lines, ms = mutants(f, text, n, random.Random(seed + f))
        for i, new in ms:
            with open(p, "w", encoding="utf8") as o: o.write("\n".join(lines[:i] + [new] + lines[i + 1:]))
            t = time.time(); res = "survived"; by = None
            for c in order(f):
                try: x = subprocess.run(["nice", "python3", V + "/checks/%s.py" % c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired: res = "timeout"; by = c; continue
                if x.returncode == 1: res, by = "killed", c; break
                if x.returncode == 2:
                    e = x.stdout.decode("utf8", "replace")
                    res, by = ("nobuild" if "error:" in e or "BuildError" in e else "error"), c
                    if res == "error": res += " " + e[-300:]
                    break
            with open(LOG, "a") as o: o.write(json.dumps(dict(file=f, line=i + 1, old=lines[i], new=new, res=res, by=by, s=round(time.time() - t), checks=order(f))) + "\n")
        with open(p, "w", encoding="utf8") as o: o.write(text)
        # objects of mutants are not needed again
        now = time.time()
        for d in ("obj", "bin", "gen"):
            for q in os.scandir(os.path.join(V, "build", d)):
                pass
main()
