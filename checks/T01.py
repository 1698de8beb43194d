"""T01: which rule consumes which words (left to right, longest match, first
rule on a tie, rejects) in the three rule stages."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from trxrun import *

def main_(chk):
    exes = chk.build(PROGS)
    kinds = ["transfer", "transfer", "interchunk", "postchunk"]
    def case(r, i, c):
        kind = kinds[i % 4]
        prog = trx.gen_select(r, kind, 80 if i % 50 < 4 else None, r.choice(["lu", "chunk"]))
        comp = Compiled(exes, prog, c)
        if not comp.ok: return
        for k in range(2):
            it = trx.Interp(prog, False, trx.prebil)
            segs = trx.gen_segments(r, lambda r: trx.select_word(r, kind), r.choice([1, 1, 2]), r.choice([6, 15, 40]), prog if r.random() < .5 else None)
            try: exp = it.run(segs)
            except trx.BadProgram: c.ev("discarded"); continue
            out = compare(c, comp, segs, exp, [], "-b" if kind == "transfer" else None, "selection-" + kind)
            for n in ("rule_applied", "reject", "reject_shift", "default_word"): c.ev(n, it.stats.get(n, 0))
            for n in it.matched_lengths: c.ev("matched_length_%d" % n)
            if it.stats.get("rule_applied"): c.seen((prog["rules"], exp))
            if out and k == 0: c.sample({"stage": kind, "rules": [p for p, _ in prog["rules"]], "in": trx.seg_text(segs[0])[:200], "out": out[:200]})
    chk.run_cases(case, chk.n(1800, 60000))
    chk.min_evals = 1500
if __name__ == "__main__": main(main_, "T01", "one case = one random rules file of 2 to 80 rules with overlapping patterns and rejects whose actions only name themselves and the words they matched, run on streams of up to 40 words in the transfer, interchunk and postchunk stages; output compared with a matcher of its own over the category items; non-trivial = at least one rule applied, distinct by rules and output",
     ["reference matcher lib/trx.py"])
