"""G03: tagging a sentence does not depend on what was tagged before."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import tag, stream as S

def main_(chk):
    exe = chk.build(["apertium-tagger"])["apertium-tagger"]
    def case(r, i, c):
        kind = tag.KINDS[i % len(tag.KINDS)]
        m = tag.model(r, exe, kind)
        files = {"tsx": m.text, "model": open(m.path, "rb").read()}
        lex = m.lex
        o = [x for x in m.options(r)]
        # the sentence stands between two unambiguous words
        una = [w for w in lex.words if len(lex.words[w]) == 1 and all(len(q) == 1 for q in lex.t[w])]
        if not una: return
        a, b = r.choice(una), r.choice(una)
        def unit(k, w):
            return lex.entry(w) if k == "w" else w if k == "raw" else "^%s/*%s$" % (w, w)
        def text(us, r2):
            return "".join(r2.choice([" ", "", "[<b>]", "\n"]) + unit(*u) for u in us)
        def raw(r):
            # a word the model never saw: the analyses of several others
            ws = r.sample(lex.base, min(len(lex.base), r.choice([2, 3])))
            an = list(dict.fromkeys(x for w in ws for x in lex.words[w]))
            if kind == "hmm" and lex.d.word(an) is None: return ("u", "zz")
            return ("raw", "^new/%s$" % "/".join(an))
        def sent(n):
            return [raw(r) if r.random() < .15 else x for x in lex.sentence(r, n, .15)]
        tail = [("w", a)] + sent(r.choice([1, 3, 8, 20])) + [("w", b)]
        fixed = text(tail, r) + "\n"
        ref = None
        for k in range(r.choice([3, 6])):
            pre = "" if k == 0 else text(sent(r.choice([1, 2, 5, 30, 150])), r) + " "
            x = run([exe] + o + [m.path], pre + fixed); c.evals += 1
            if c.san(x, input=pre + fixed, **files): return
            try: toks = S.tokenize(x.out.decode("utf8", "replace"))
            except S.Malformed as e: c.violation("output", "%s: %r" % (e, x.out[:400]), input=pre + fixed, **files); return
            us = [v for q, v in toks if q == "lu"]
            got = us[-len(tail):]
            if ref is None: ref = got
            elif got != ref:
                d = [(p, q) for p, q in zip(ref, got) if p != q]
                c.violation("history-" + kind, "sentence %r\nalone:  %r\nafter %d other words: %r" % (fixed[:500], d[0][0] if d else len(ref), len(us) - len(tail), d[0][1] if d else len(got)), input=pre + fixed, alone=fixed, **files); return
            if k: c.ev("contexts"); c.ev("context_words", len(us) - len(tail))
        c.ev("sentences_" + kind); c.seen((m.text, fixed))
        if i < 6: c.sample({"sentence": fixed[:150], "output": ref[:6]})
    chk.run_cases(case, chk.n(600, 12000))
    chk.min_evals = 500
if __name__ == "__main__": main(main_, "G03", "one case = one model and one sentence that starts and ends with unambiguous words, tagged alone and after several other texts (up to 150 words, with unknown words and words with unseen combinations of analyses) in the same process: its units must be tagged the same every time; distinct by model and sentence",
     ["the tagger, on the sentence alone, is the reference"])
