"""M02: mode generation writes every mode with its whole pipeline."""
import os, shutil, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *

# program -> debug suffixes, tracing option of its debug modes
KNOWN = [("cg-proc", ["disam"], "-t"), ("apertium-tagger", ["tagger"], None), ("apertium-pretransfer", ["pretransfer"], None),
         ("apertium-posttransfer", ["posttransfer"], None), ("lrx-proc", ["lex", "lextor"], "-t"), ("apertium-transfer", None, "-t"),
         ("apertium-interchunk", ["interchunk"], "-t"), ("apertium-postchunk", ["postchunk"], "-t"), ("lt-proc", None, None),
         ("hfst-proc", None, None), ("lsx-proc", None, None), ("rtx-proc", ["transfer"], "-r"), ("apertium-anaphora", ["anaph"], "-d"),
         ("apertium-extract-caps", ["decase"], None), ("apertium-restore-caps", ["recase"], None), ("my-tool", ["NAMEME"], None)]
def program(c):
    p = c.split()[0]
    for n, s, t in KNOWN:
        if n == p: return n, s, t
    return p, ["NAMEME"], None
def suffixes(c):
    n, s, _ = program(c)
    if n not in ("cg-proc", "apertium-tagger", "apertium-pretransfer", "apertium-posttransfer", "lrx-proc", "apertium-transfer", "apertium-interchunk", "apertium-postchunk") and "$1" in c: return ["dgen", "generador"]
    if n == "apertium-transfer": return ["transfer2"] if " -n" in c else ["chunker", "transfer"]
    if n == "lt-proc": return ["biltrans"] if " -b" in c else ["pgen"] if " -p" in c else ["morph"] if " -g" in c else ["morph", "anmor"]
    if n == "hfst-proc": return ["morph"] if " -g" in c else ["morph", "anmor"]
    if n == "lsx-proc": return ["pgen"] if " -p" in c else ["autoseq"]
    return s
def traced(c):
    t = program(c)[2]
    if t: return c + " " + t
    return c.replace("$1", "-d", 1)

def expected(modes):
    """modes: [(name, install, debug, [(command, suffix, [(arg, is_file)])])]"""
    res = {m[0]: (m[1], m[3]) for m in modes}
    for n, inst, dbg, steps in sorted(modes):
        if not dbg: continue
        for k, (c, suf, args) in enumerate(steps):
            for s in ([suf] if suf is not None else suffixes(c)):
                d = "%s-%s" % (n, s)
                if d in res: continue
                pre = steps[:k] + [(traced(c), suf, args)]
                res[d] = (False, pre)
                if "@" + d not in res:
                    res["@" + d] = (False, [(a, b, [(".automorf-untrimmed.".join(x.rsplit(".automorf.", 1)), f) for x, f in ar]) for a, b, ar in pre])
    return res

STUB = """#!/bin/sh
cat
printf '%s' "${0##*/}"
for a in "$@"; do printf '\\001%s' "$a"; done
printf '\\002'
"""
def gen(r):
    def word(n=6): return "".join(r.choice("abcdefgh-_.") for _ in range(r.randint(1, n))).strip("-.") or "a"
    def fname():
        x = r.choice(["%s.automorf.bin", "%s.autogen.bin", "%s.t1x", "%s.prob", "%s/%s.bin", "%s.automorf.hfst"])
        x = x.replace("%s", r.choice(["en-es", "nno", "x", word()]))
        if r.random() < .12: x += r.choice([" a", "&b", "<c>", "é", "\"q\"", "$1", "*", "'s", "\\", ";d"])
        if r.random() < .06: x = "../other/" + x
        if r.random() < .04: x = x.replace(".automorf.", ".automorf.automorf.")
        if r.random() < .05: x = "/abs/" + x
        return x
    def step():
        n = r.choice(KNOWN)[0]; c = n
        if n == "lt-proc": c += r.choice(["", "", " $1", " -b", " -p", " -g", " -w -e", " -z $1"])
        elif n in ("apertium-transfer", "hfst-proc", "lsx-proc"): c += r.choice(["", "", " -b", " -n", " -p", " -g", " -g $1"])
        elif n == "apertium-tagger": c += r.choice([" -g", " -g $2", ""])
        elif r.random() < .3: c += r.choice([" -z", " --trace", " $1 -x", " -o 'a b'", " \"&\""])
        suf = r.choice([None] * 5 + ["disam", "foo", "morph"])
        args = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            f = r.random() < .7
            args.append((fname() if f else r.choice(["-n", "$1", "--opt=1", "'x y'", "-", "é", "\"&amp;\"", "x.automorf.y", "0"]), f))
        return c, suf, args
    names = []; modes = []
    for _ in range(r.choice([1, 2, 3, 6])):
        n = r.choice(["en-es", "es-en", "en-es-tagger", "x", "nob-nno", "en-es-morph", "@x-morph", word()])
        if n in names: continue
        names.append(n)
        modes.append((n, r.random() < .5, r.random() < .5, [step() for _ in range(r.choice([1, 2, 3, 6]))]))
    return modes
def att(s): return '"%s"' % s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")
def xml(r, modes):
    o = ['<?xml version="1.0" encoding="UTF-8"?>', r.choice(["", "<!DOCTYPE modes SYSTEM \"modes.dtd\">"]), "<modes>"]
    cm = lambda: r.choice(["", "", "", "<!-- a | b -->", "\n  "])
    for n, i, d, steps in modes:
        a = ["name=" + att(n)]
        if i: a.append('install="yes"')
        elif r.random() < .3: a.append('install="%s"' % r.choice(["no", ""]))
        if d: a.append('gendebug="yes"')
        elif r.random() < .3: a.append('gendebug="%s"' % r.choice(["no", ""]))
        r.shuffle(a)
        o.append("%s<mode %s>%s<pipeline>" % (cm(), " ".join(a), cm()))
        for c, s, args in steps:
            pa = ["name=" + att(c)] + (["debug-suff=" + att(s)] if s is not None else []); r.shuffle(pa)
            o.append("%s<program %s>%s" % (cm(), " ".join(pa), cm()))
            for x, f in args: o.append("<%s name=%s%s" % ("file" if f else "arg", att(x), r.choice(["/>", "></%s>" % ("file" if f else "arg")])))
            o.append("</program>")
        o.append("</pipeline>%s</mode>" % r.choice(["", '<preferences><pref path="p.xml"/></preferences>' if r.random() < .3 else ""]))
    return "\n".join(o + ["</modes>\n"])

def main_(chk):
    gm = chk.build(["apertium-gen-modes"])["apertium-gen-modes"]
    stubs = os.path.join(chk.base, "stubs"); os.makedirs(stubs)
    for n, _, _ in KNOWN:
        with open(os.path.join(stubs, n), "w") as f: f.write(STUB)
        os.chmod(os.path.join(stubs, n), 0o755)
    stubs_env = dict(ENV, PATH=stubs + ":/usr/bin:/bin")
    def case(r, i, c):
        top = os.path.join(scratch(), "m%d" % i)
        sub = r.choice(["", "d", "d e", "d'q", "é/x"])
        src = os.path.join(top, sub) if sub else top
        os.makedirs(src)
        modes = gen(r); text = xml(r, modes)
        with open(os.path.join(src, "modes.xml"), "w") as f: f.write(text)
        how = r.choice(["here", "here", "from-parent", "absolute", "install", "install-abs", "full-noarg", "install-local", "local"])
        cwd, arg, opts = src, "modes.xml", []
        inst = r.choice(["/usr/share/apertium/apertium-x", os.path.join(top, "inst dir")])
        wd = os.path.join(src, "modes"); fd = src
        if how == "from-parent": cwd = top; arg = os.path.join(".", sub, "modes.xml")
        if how in ("absolute", "install-abs"): cwd = scratch(); arg = os.path.join(src, "modes.xml")
        if how.startswith("install"): opts = [r.choice(["-f", "--full"])]; fd = inst; wd = src
        if how == "full-noarg": opts = ["-f"]
        if how == "install-local": cwd = os.path.join(top, "w"); os.makedirs(cwd); arg = os.path.join(src, "modes.xml"); opts.append("-l"); wd = cwd
        if how == "local": arg = "./modes.xml"; opts.append(r.choice(["-l", "--local"]))
        inst_only = how.startswith("install")
        before = {os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs}
        x = run([gm] + opts + [arg] + ([inst] if inst_only else []), cwd=cwd); c.evals += 1
        files = {"modes.xml": text}
        if c.san(x, **files): return
        if x.rc: c.violation("fails", "%s: exit %d %r" % (how, x.rc, x.err[-300:]), **files); return
        want = {n: s for n, (ins, s) in expected(modes).items() if ins or not inst_only}
        new = {os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs} - before
        exp = {os.path.join(wd, n + ".mode") for n in want}
        if new != exp: c.violation("files", "%s: missing %s, extra %s" % (how, sorted(exp - new)[:5], sorted(new - exp)[:5]), **files); return
        for n in want:
            p = os.path.join(wd, n + ".mode"); script = open(p).read()
            steps = want[n]
            # run it: every stage of the pipeline appends its name and arguments
            pos = r.choice([["-g", "-m"], ["-n", ""], ["-d", "x"]])
            y = run(["/bin/bash", p] + pos, "IN\2", env=stubs_env, cwd=cwd); c.evals += 1
            import shlex
            def ev(w): # what the shell makes of a written argument
                return [v for v in shlex.split(w.replace("$1", pos[0]).replace("$2", pos[1]))]
            rec = ["IN"]
            for cmd, _, args in steps:
                a = ev(cmd)
                for t, isf in args:
                    a += [os.path.join(fd, t)] if isf else ev(t)
                rec.append("\1".join(a))
            norm = lambda t: "\2".join("\1".join(os.path.normpath(a) if a.startswith("/") else a for a in q.split("\1")) for q in t.split("\2"))
            if y.rc or norm(dec(y.out)) != norm("\2".join(rec + [""])):
                c.violation("runs", "%s: mode %s does not run its pipeline (exit %d %r)\n%s\n%s" % (how, n, y.rc, y.err[-200:], script, diff("\n".join(rec), dec(y.out).replace("\2", "\n"))), mode=script, **files); return
            c.ev("modes_run"); c.ev("steps", len(steps))
            c.seen((script,))
            if "-" in n and n.startswith("@"): c.ev("untrimmed")
        if i < 4: c.sample({"how": how, "modes": sorted(want)[:6]})
        shutil.rmtree(top)
    chk.run_cases(case, chk.n(250, 4000), "modes")
    chk.min_evals = 1000
if __name__ == "__main__": main(main_, "M02", "one case = one generated modes file turned into scripts with one way of calling apertium-gen-modes; the set of files is compared with the definition and every script is executed with recording stand-ins for its programs, whose arguments and order are compared",
     ["program names and arguments are shell text, file names are literal paths", "names of debug modes follow the tool's table of suffixes"])
