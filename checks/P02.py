"""P02: apertium-posttransfer squeezes runs of spaces and does nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *
import re

def main_(chk):
    exe = chk.build(["apertium-posttransfer"])["apertium-posttransfer"]
    def case(r, i, c):
        s = []
        for _ in range(r.choice([1, 2, 5, 12])):
            x = r.random()
            if x < 0.35: s.append("^%s%s$" % (S.word(r), S.tags(r, 0, 3)))
            elif x < 0.5: s.append("[%s]" % S.blank(r))
            elif x < 0.6: s.append("[[%s]]^%s$" % (S.wblank(r), S.word(r)))
            elif x < 0.65: s.append("\0")
            elif x < 0.8: s.append(" " * r.choice([1, 1, 2, 3, 7, 40]))
            elif x < 0.85: s.append(r.choice(["\u00a0\u00a0", "\t\t", "\n\n", "\r\n", "\u2003\u2003", " \n ", "  \0  ", " \u00a0 ", "\\ ", "\\  "]))
            else: s.append(S.text(r))
        inp = "".join(s); exp = re.sub(" +", " ", inp)
        cmd = [exe] + (["-z"] if r.random() < .5 else [])
        data = enc(inp)
        if not data: return
        if r.random() < .15:
            p = os.path.join(scratch(), "in.txt"); q = os.path.join(scratch(), "out.txt")
            open(p, "wb").write(data)
            if r.random() < .5: res = run(cmd + [p])
            else:
                if os.path.exists(q): os.unlink(q)
                res = run(cmd + [p, q]); res.out = open(q, "rb").read() if os.path.exists(q) else b"(no output file)"
        else: res = run(cmd, data)
        c.evals += 1; c.ev("space_runs_squeezed", len(re.findall("  +", inp))); c.ev("bytes", len(data))
        if len(inp) > 2: c.seen(inp)
        if c.san(res, input=data): return
        out = dec(res.out)
        if out != exp: c.violation("output", "input %r\n%s" % (inp[:500], diff(exp, out)), input=data, expected=enc(exp), observed=res.out)
        elif res.rc: c.violation("exit-status", "exit %d" % res.rc, input=data)
        c.sample({"in": inp[:200], "out": out[:200]})
    chk.run_cases(case, chk.n(5000, 60000)); chk.min_evals = 3000
if __name__ == "__main__": main(main_, "P02", "one case = one random well-formed stream with runs of spaces, other whitespace, escapes, blanks and NUL separators; output must be the input with every maximal run of U+0020 reduced to one and nothing else changed; non-trivial = more than two characters, distinct by input",
     ["U+FFFF (ICU's end-of-file value) does not occur in the stream"])
