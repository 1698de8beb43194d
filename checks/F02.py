"""F02: deformatters emit a well-formed stream exposing exactly the text."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *
import fmt, re

def main_(chk):
    fs = list(fmt.F)
    exes = chk.build(["apertium-des" + f for f in fs])
    def load(p):
        if not re.fullmatch(r"/tmp/file[A-Za-z0-9]{6}", p): raise ValueError("superblank file %r" % p)
        with open(p, "rb") as f: s = f.read()
        os.unlink(p); return s.decode("utf8")
    def case(r, i, c):
        f = fs[i % len(fs)]
        for _ in range(200):
            pieces = fmt.document(r, f, r.choice([1, 3, 6, 15, 40]))
            if not fmt.ambiguous(f, pieces): break
            c.ev("regenerated")
        else: return
        doc = "".join(p[1] for p in pieces)
        o = {k: r.random() < .2 for k in "ino"}
        x = run([exes["apertium-des" + f]] + ["-" + k for k in "ino" if o[k]], enc(doc)); c.evals += 1
        fl = dict(format=f + " " + str(o), doc=doc, observed=x.out)
        if c.san(x, **fl): return
        want = fmt.model(pieces, **o)
        try: got = fmt.read_stream(x.out.decode("utf8"), o["n"], load)
        except (ValueError, OSError) as e: c.violation("malformed-" + f, "%s: %r" % (e, dec(x.out)[:600]), **fl); return
        if o["n"]:
            # after a full stop of the text the mark is left out
            w2 = []
            for u in want:
                if not (u == ("dot", "") and w2 and w2[-1] == ("char", ".")): w2.append(u)
            want = w2
        if want != got:
            k = next((k for k in range(min(len(want), len(got))) if want[k] != got[k]), min(len(want), len(got)))
            c.violation("units-" + f, "%s %s\nunit %d\nexpected %r\nobserved %r" % (f, o, k, want[max(0, k-3):k+5], got[max(0, k-3):k+5]), **fl); return
        for k, _ in want: c.ev(k)
        c.ev("docs_" + f); c.seen((f, doc))
        if i < 60: c.sample({"format": f, "document": doc[:120], "stream": dec(x.out)[:160]})
    chk.run_cases(case, chk.n(2600, 60000)); chk.min_evals = 1800
if __name__ == "__main__": main(main_, "F02", "one case = one random document built from text characters and the markup its format declares, through the deformatter with random options: the stream must read back as the model's units (text characters outside blanks, reserved ones escaped; markup and whitespace in blanks; a sentence mark exactly where sentence-ending markup or the end of the document follows); distinct by format and document",
     ["documents are valid UTF-8 without NUL in which neighbouring pieces do not read as other markup", "the markup vocabulary of each format is the one in lib/fmt.py, taken from the documented formats"])
