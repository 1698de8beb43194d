"""W02: apertium-wblank-mode rewrites a mode without changing its pipeline."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *
import re

def model(steps, z):
    mode = " | ".join(steps)
    helpers = "apertium-wblank-" in mode
    caps = "apertium-restore-caps" in mode
    if "lt-proc -b" not in mode:
        new = []
        for s in steps:
            m = re.fullmatch(r"(.*?)apertium-transfer\s+'([^']+)'\s+'([^']+)'\s+'([^']+autobil\.bin)'(.*)", s)
            if m: new += ["%slt-proc -b '%s'" % (m[1], m[4]), "apertium-transfer -b '%s' '%s'%s" % (m[2], m[3], m[5])]
            else: new.append(s)
        steps = new
    out = []
    for s in steps:
        if z and " -z" not in s:
            w = s.split(None, 1)
            s = w[0] + " -z" + s[len(w[0]):]
        if not helpers:
            if "automorf.bin" in s or "automorf.hfst" in s: out += [s, "apertium-wblank-attach"]; continue
            if not caps and ("autogen.bin" in s or "autogen.hfst" in s): out += ["apertium-wblank-detach", s]; continue
        out.append(s)
    return " | ".join(out) + "\n"

def step(r):
    d = "'/usr/share/apertium/apertium-%s/" % r.choice(["en-es", "nno-nob", "a.b"])
    l = r.choice(["en-es", "nob-nno", "x"])
    return r.choice([
        lambda: "lt-proc %s%s%s.automorf.bin'" % (r.choice(["", "-w ", "-e -w "]), d, l),
        lambda: "hfst-proc %s%s.automorf.hfst'" % (d, l),
        lambda: "cg-proc %s-w 1%s.rlx.bin'" % (d, l),
        lambda: "apertium-tagger -g $2 %s%s.prob'" % (d, l),
        lambda: "apertium-pretransfer",
        lambda: "apertium-pretransfer -z",
        lambda: "lt-proc -b %s%s.autobil.bin'" % (d, l),
        lambda: "lrx-proc -m %s%s.autolex.bin'" % (d, l),
        lambda: "apertium-transfer -b %s%s.t1x'  %s%s.t1x.bin'" % (d, l, d, l),
        lambda: "apertium-transfer %s%s.t1x'  %s%s.t1x.bin'  %s%s.autobil.bin'" % (d, l, d, l, d, l),
        lambda: "apertium-interchunk %s%s.t2x'  %s%s.t2x.bin'" % (d, l, d, l),
        lambda: "apertium-postchunk %s%s.t3x'\t%s%s.t3x.bin'" % (d, l, d, l),
        lambda: "lt-proc $1 %s%s.autogen.bin'" % (d, l),
        lambda: "lt-proc -z -g %s%s.autogen.bin'" % (d, l),
        lambda: "hfst-proc $1 %s%s.autogen.hfst'" % (d, l),
        lambda: "lt-proc -p %s%s.autopgen.bin'" % (d, l),
        lambda: "apertium-restore-caps %s%s.crx.bin'" % (d, l),
        lambda: "apertium-extract-caps",
        lambda: "apertium-wblank-attach", lambda: "apertium-wblank-detach",
        lambda: "sed 's/a/b/'",
    ])()

def main_(chk):
    exe = chk.build(["apertium-wblank-mode"])["apertium-wblank-mode"]
    def case(r, i, c):
        steps = [step(r) for _ in range(r.choice([1, 2, 4, 8, 12]))]
        if r.random() < .7: steps = [s for s in steps if "wblank" not in s] or ["apertium-pretransfer"]
        if r.random() < .6: steps = [s for s in steps if "restore-caps" not in s] or ["apertium-pretransfer"]
        if r.random() < .6: steps = [s for s in steps if "lt-proc -b" not in s] or ["apertium-pretransfer"]
        z = r.random() < .5
        seps = [r.choice([" | ", "|", " |", "  |\t", " |\n"]) for _ in steps[1:]]
        txt = steps[0] + "".join(a + b for a, b in zip(seps, steps[1:]))
        txt = r.choice(["", " ", "\n"]) + txt + r.choice(["", "\n", " \n\n"])
        exp = model([" ".join([s]) for s in steps], z)
        cmd = [exe] + (["-z"] if z else [])
        if r.random() < .4:
            p = os.path.join(scratch(), "a.mode"); open(p, "w").write(txt); res = run(cmd + [p])
        else: res = run(cmd, txt)
        c.evals += 1; c.ev("steps", len(steps)); c.ev("steps_added", exp.count(" | ") + 1 - len(steps))
        c.seen(txt)
        if c.san(res, input=txt): return
        if dec(res.out) != exp or res.rc:
            c.violation("output" + ("-z" if z else ""), "exit %d\ninput %r\n%s" % (res.rc, txt, diff(exp, dec(res.out))), input=txt, expected=exp, observed=res.out)
            return
        # the conversion is idempotent (a converted mode keeps its helpers and steps)
        res2 = run(cmd, res.out); c.evals += 1
        if not c.san(res2, input=res.out) and re.sub(rb"(wblank-\w+) -z", rb"\1", res2.out) != re.sub(rb"(wblank-\w+) -z", rb"\1", res.out) and ("apertium-wblank-" in exp):
            c.violation("idempotent", "%r then %r" % (res.out, res2.out), input=res.out)
        c.sample({"z": z, "in": txt[:300], "out": exp[:400]})
    chk.run_cases(case, chk.n(2000, 20000)); chk.min_evals = 2000
if __name__ == "__main__": main(main_, "W02", "one case = a random pipeline of 1 to 12 translation programs (old and new style transfer, with or without helpers, caps, -z) from a file or stdin, compared with an independent rewriting of the step list; converting twice changes nothing further; distinct by mode text",
     ["modes are one pipeline per file, programs named as gen-modes writes them"])
