"""C01: restoring capitalisation applies the case with the heaviest total."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *
import caps

def main_(chk):
    exes = chk.build(["apertium-compile-caps", "apertium-restore-caps"])
    def case(r, i, c):
        rules = caps.gen_rules(r); text = caps.to_xml(rules)
        xml = os.path.join(scratch(), "r.crx"); b = os.path.join(scratch(), "r.bin")
        with open(xml, "w") as f: f.write(text)
        if os.path.exists(b): os.unlink(b)
        x = run([exes["apertium-compile-caps"], xml, b])
        if c.san(x, rules=text): return
        if x.rc or not os.path.exists(b):
            c.violation("compile", "valid rules refused: %s" % dec(x.err)[:300], rules=text); return
        for _ in range(4):
            keep = r.random() < .5
            segs = [caps.restore_items(r, r.choice([0, 1, 2, 4, 9, 16])) for _ in range(r.choice([1, 1, 2, 4]))]
            exp = []
            try:
                for it, tail in segs:
                    e, fired, multi, ties = caps.restore_expected(rules, it, tail, keep)
                    if ties: raise caps.Big()
                    exp.append(e); c.ev("rule_matches", fired); c.ev("ambiguous_rule_matches", multi); c.ev("words", len(it))
            except caps.Big:
                c.ev("skipped_too_ambiguous"); continue
            inp = "\0".join(caps.restore_text(*s) for s in segs); want = "\0".join(exp)
            x = run([exes["apertium-restore-caps"], "-z"] + (["-k"] if keep else []) + [b], enc(inp)); c.evals += 1
            fl = {"rules": text, "input": inp}
            if c.san(x, **fl): return
            if x.out != enc(want):
                c.violation("case" if dec(x.out).lower() == want.lower() else "text", "%s\n%s" % (inp[:400], diff(want, dec(x.out))), expected=want, observed=x.out, **fl); return
            n = sum(a[4] in want for s in segs for a in s[0]); 
            if inp: c.seen((text, inp))
        if i < 30: c.sample({"rules": text[:300], "input": inp[:200], "output": dec(x.out)[:200]})
    chk.run_cases(case, chk.n(900, 30000)); chk.min_evals = 1500
if __name__ == "__main__": main(main_, "C01", "one case = one random capitalisation rules file (matches on lemma, tags, surface and case descriptions; or, repeat, begin; weights) compiled once and applied to four random streams of units; the output must be what a reference matcher computes (per word, the case with the greatest total weight over all matching rules, dix winning ties, then aa, Aa, AA), with blanks and other word-bound blanks kept; distinct by rules and input",
     ["a rule that matches in several ways ending at the same word counts once, in the first way in the order AA, Aa, aa, dix, none", "words with letters outside the BMP do not occur (lttoolbox's tokenizer takes them for tags)", "an escaped / does not occur inside a unit"])
