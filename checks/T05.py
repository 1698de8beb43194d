"""T05: the postchunk stage against a reference interpreter of the rule language."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from trxrun import *
KIND = "postchunk"

def main_(chk):
    exes = chk.build(["apertium-preprocess-transfer", "apertium-" + KIND])
    def case(r, i, c):
        g = trx.Gen(r, KIND)
        comp = Compiled(exes, g.prog, c)
        if not comp.ok: return
        for k in range(3):
            dc = r.random() < .12
            it = trx.Interp(g.prog, dc)
            wb = r.choice([0, 0, .3]) if KIND == "postchunk" else 0
            segs = trx.gen_segments(r, lambda r: trx.chunk_word(r, wb), r.choice([1, 1, 3]), prog=g.prog)
            try: exp = it.run(segs)
            except trx.BadProgram as e: c.ev("discarded"); continue
            out = compare(c, comp, segs, exp, ["-w"] if dc else [], None)
            for n, v in it.stats.items(): c.ev(n, v)
            if it.stats.get("rule_applied"): c.seen((g.prog["rules"], exp))
            if out and k == 0 and it.stats.get("rule_applied"): c.sample({"in": trx.seg_text(segs[0])[:200], "out": out[:200]})
    chk.run_cases(case, chk.n(1500, 40000))
    chk.min_evals = 1000
if __name__ == "__main__": main(main_, "T05", "one case = one random postchunk rules file over the whole rule language, compiled by apertium-preprocess-transfer and run on random chunk streams under ASan+UBSan, output compared byte for byte with a reference interpreter (lib/trx.py); non-trivial = at least one rule applied, distinct by rules and output",
     ["reference interpreter lib/trx.py", "ICU case mapping"])
