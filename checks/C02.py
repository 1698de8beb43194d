"""C02: extracting capitalisation marks every unit and keeps everything else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *
import caps, icu, re

PIPE = [{"w": 1, "b": [("match", {"srcsurf": k, "select": k})]} for k in ("AA", "Aa", "aa")]
def lemma_case(rd):
    """Case of the lemma of the first reading; for joined units from the first
    letter of the first lemma to the last letter of the last one."""
    parts = rd.split(">+")
    last = len(rd) - len(parts[-1]) if len(parts) > 1 else 0
    j = rd.find("<", last)
    return icu.getcase(rd[:j] if j >= 0 else rd)
def expected(toks, surf):
    out = []; wb = None; n = 0
    def flush():
        nonlocal wb
        if wb is not None: out.append("[[%s]]" % wb)
        wb = None
    for k, v in toks:
        if k == "wblank": flush(); wb = v
        elif k == "lu":
            rd = S.split_unescaped(v, "/"); n += 1
            first = rd[1] if len(rd) > 1 else ""
            m = "c:%s/%s" % (icu.getcase(rd[0]), lemma_case(first))
            out.append("[[%s]]^%s%s$" % ((wb + "; " if wb else "") + m, rd[0] + "/" if surf else "", first)); wb = None
        else: flush(); out.append(S.untok([(k, v)]))
    flush()
    return "".join(out), n

def main_(chk):
    exes = chk.build(["apertium-extract-caps", "apertium-compile-caps", "apertium-restore-caps"])
    def case(r, i, c):
        inp = "\0".join(caps.extract_stream(r, r.choice([0, 1, 3, 8, 40])) for _ in range(r.choice([1, 1, 2, 4])))
        if not inp: return
        surf = r.random() < .4
        want, n = expected(S.tokenize(inp), surf)
        cmd = [exes["apertium-extract-caps"]] + (["-z"] if r.random() < .5 else []) + (["-s"] if surf else [])
        if r.random() < .15:
            p = os.path.join(scratch(), "i.txt"); q = os.path.join(scratch(), "o.txt"); open(p, "wb").write(enc(inp)); open(q, "wb").close()
            x = run(cmd + [p, q]); x.out = open(q, "rb").read()
        else: x = run(cmd, enc(inp))
        c.evals += 1; c.ev("units", n)
        if c.san(x, input=inp): return
        if x.out != enc(want): c.violation("output", "%r\n%s" % (inp[:300], diff(want, dec(x.out))), input=inp, expected=want, observed=x.out); return
        c.seen(inp); c.sample({"in": inp[:200], "out": want[:200]})
        # the marker is what restore-caps needs: with one rule per surface case the case comes back
        if i % 6 == 0:
            text = caps.to_xml(PIPE); xml = os.path.join(scratch(), "p.crx"); b = os.path.join(scratch(), "p.bin")
            with open(xml, "w") as f: f.write(text)
            y = run([exes["apertium-compile-caps"], xml, b])
            if c.san(y, rules=text): return
            items = [(" ", None, "x", ["n"], caps.casing(r, "".join(r.choice("abcdefg") for _ in range(r.randint(1, 6))))) for _ in range(8)]
            st = "".join("%s^%s/%s<n>$" % (b_, s, "lemma") for b_, _, _, _, s in items)
            y = run([exes["apertium-extract-caps"]], st)
            if c.san(y, input=st): return
            mid = re.sub(r"\^lemma<n>\$", "^lemma<n>/word$", dec(y.out))
            z = run([exes["apertium-restore-caps"], b], enc(mid)); c.evals += 1; c.ev("pipeline_words", 8)
            if c.san(z, input=mid): return
            w2 = "".join(" " + {"aa": "word", "Aa": "Word", "AA": "WORD"}[icu.getcase(it[4])] for it in items)
            if dec(z.out) != w2: c.violation("pipeline", "%r -> %r -> %r, expected %r" % (st, mid, dec(z.out), w2), input=st)
    chk.run_cases(case, chk.n(4000, 60000)); chk.min_evals = 2500
if __name__ == "__main__": main(main_, "C02", "one case = one random stream of analysed units (compounds, unknown words, escapes, several readings, existing word-bound blanks, NUL separators) through apertium-extract-caps: every unit must get one case marker joined to its word-bound blank and keep its first reading (and surface form with -s), everything else unchanged; every sixth case also restores a stream end to end; distinct by input",
     ["lettercase is decided as lttoolbox defines it: AA when first and last character are upper case, Aa when only the first is or there is one"])
