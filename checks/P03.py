"""P03: apertium-cleanstream keeps the lexical units and nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *

def model(toks, nl, keep):
    out = []; pend = False; ws = "\n" if nl else " "
    for k, v in toks:
        if k == "stray": continue
        if k == "lu":
            v = v.replace("\1", "\\^")
            if pend or nl: out.append(ws)
            out.append("^%s$" % v); pend = False
        elif k == "blank":
            out.append(ws)
            if keep: out.append("[%s]" % v)
        elif k == "wblank":
            # without -b a word-bound blank is dropped like any other blank and separates
            out.append(ws); pend = True
        else: pend = True
    if nl: out.append("\n")
    return "".join(out)

def main_(chk):
    exe = chk.build(["apertium-cleanstream"])["apertium-cleanstream"]
    def case(r, i, c):
        nl = r.random() < .5; keep = r.random() < .5
        toks = []
        for _ in range(r.choice([0, 1, 3, 8])):
            x = r.random()
            if x < .6:
                if not keep and r.random() < .15: toks.append(("wblank", S.wblank(r)))
                k = r.choice([0, 1, 1, 2, 3])
                lu = S.word(r, esc_p=.25)
                for _ in range(k): lu += "/" + S.word(r, esc_p=.2) + S.tags(r, 0, 3)
                if r.random() < .1: lu += "/*" + S.word(r)
                if r.random() < .1: lu += r.choice(["[", "]", "{", "[x]", "+", " "])
                if r.random() < .06: k = r.randrange(len(lu) + 1); k -= (k - len(lu[:k].rstrip("\\"))) % 2; lu = lu[:k] + "\1" + lu[k:]
                toks.append(("lu", lu))
                if r.random() < .04: toks.append(("stray", "$"))
            elif x < .8: toks.append(("blank", S.blank(r)))
            t = S.text(r, esc_p=.3)
            if t: toks.append(("text", t))
        # an unescaped ^ inside a unit is escaped, a stray $ dropped
        inp = "".join("$" if k == "stray" else S.untok([(k, v)]) for k, v in toks).replace("\1", "^"); exp = model(toks, nl, keep)
        opts = (["-n"] if nl else []) + (["-b"] if keep else [])
        r.shuffle(opts); data = enc(inp)
        res = run([exe] + opts, data)
        nlu = sum(1 for k, _ in toks if k == "lu")
        c.evals += 1; c.ev("units", nlu); c.ev("blanks", sum(1 for k, _ in toks if k == "blank"))
        if nlu: c.seen(inp)
        if c.san(res, input=data): return
        out = dec(res.out)
        if out != exp or res.rc:
            c.violation("output" + "".join(sorted(opts)), "options %s exit %d\ninput %r\n%s" % (opts, res.rc, inp[:500], diff(exp, out)), input=data, expected=enc(exp), observed=res.out)
        c.sample({"opts": opts, "in": inp[:200], "out": out[:200]})
    chk.run_cases(case, chk.n(5000, 60000)); chk.min_evals = 3000
if __name__ == "__main__": main(main_, "P03", "one case = one random well-formed stream (units with any number of analyses, escapes inside and outside units, superblanks, word-bound blanks when blanks are dropped) and option set, compared byte for byte with an independent model; non-trivial = contains a unit, distinct by input",
     ["model in checks/P03.py"])
