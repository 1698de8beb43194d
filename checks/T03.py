"""T03: the transfer stage against a reference interpreter of the rule language."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from trxrun import *
import re, subprocess, core

def main_(chk):
    exes = chk.build(["apertium-preprocess-transfer", "apertium-transfer"])
    # a stand-in for the dictionary look-up (see T06, DESIGN.md): the words'
    # translations and queue lengths come from a table
    shim = chk.build(["apertium-transfer"], more=[os.path.join(VERIF, "lib", "bishim.cc")])["apertium-transfer"]
    dix = os.path.join(chk.base, "empty.dix"); fst = os.path.join(chk.base, "empty.bin")
    with open(dix, "w") as f: f.write('<dictionary><alphabet/><sdefs><sdef n="n"/></sdefs><section id="m" type="standard"><e><p><l>a<s n="n"/></l><r>b<s n="n"/></r></p></e></section></dictionary>')
    subprocess.run(["lt-comp", "lr", dix, fst], check=True, stdout=subprocess.DEVNULL)
    def bil(r, i, c):
        """Translations looked up by transfer itself: words have queues, the
        tags that the dictionary entry does not mention."""
        g = trx.Gen(r, "transfer", r.choice(["lu", "chunk"]), queues=.4)
        comp = Compiled(exes, g.prog, c)
        if not comp.ok: return
        g.prog["_bil"] = False
        for k in range(2):
            table = {}
            def word(r):
                w = trx.word_plain(r)
                if w.startswith("*"): return w
                if w not in table and r.random() < .9:
                    t = trx.tlword(r); tags = re.findall(r"<[^<>]*>", w[w.index("<"):]) if "<" in w else []
                    q = "".join(tags[r.randint(0, len(tags)):])
                    if t.startswith(("*", "@", "\\")) or not t: t = "x<n>"
                    if r.random() < .6: t = re.sub(r"<.*", "", t) + "".join(tags[:len(tags) - q.count("<")])
                    table[w] = (t + q, len(q))
                return w
            def look(wb, w):
                if w.startswith("*"): return w, w, "", 0, ""
                t, q = table.get(w, ("@" + w, 0))
                return w, t, "", q, ""
            segs = trx.gen_segments(r, word, r.choice([1, 1, 2]), 12)
            for b, w in (x for s in segs for x in s[0]):
                if not w.startswith("*") and re.search(r"[\t\n]", w): return
            it = trx.Interp(g.prog, False, look)
            try: exp = it.run(segs)
            except trx.BadProgram: c.ev("discarded"); continue
            path = os.path.join(scratch(), "table")
            with open(path, "w") as f: f.write("".join("%s\t%s\t%d\n" % (w, t, q) for w, (t, q) in table.items()))
            null = len(segs) > 1
            data = enc("\0".join(trx.seg_text(s) for s in segs))
            res = run([shim] + (["-z"] if null else []) + [comp.xml, comp.bin, fst], data, env=dict(core.ENV, VERIF_BIDIX=path)); c.evals += 1
            files = {"rules": comp.text, "table": open(path).read(), "input": data}
            if c.san(res, **files): return
            want = "".join(e + "\0" for e in exp) if null else exp[0]; out = dec(res.out)
            if res.rc != 0 or out.rstrip("\0") != want.rstrip("\0"):
                c.violation("output-bil", "exit %d\ninput %r\n%s" % (res.rc, dec(data)[:800], diff(want, out)), expected=enc(want), observed=res.out, **files); return
            c.ev("bil_rule_applied", it.stats.get("rule_applied", 0))
            if it.stats.get("rule_applied"): c.seen((g.prog["rules"], exp))
    def big(r, i, c):
        prog, word = trx.gen_big(r)
        comp = Compiled(exes, prog, c)
        if not comp.ok: return
        for k in range(3):
            it = trx.Interp(prog, False, trx.prebil)
            segs = trx.gen_segments(r, word, r.choice([1, 3]), 40)
            exp = it.run(segs)
            compare(c, comp, segs, exp, [], "-b", "output-big")
            c.ev("big_rule_applied", it.stats.get("rule_applied", 0)); c.ev("rules_in_big_files", len(prog["rules"]) if k == 0 else 0)
    def case(r, i, c):
        if i % 200 == 6: return big(r, i, c)
        if i % 4 == 3: return bil(r, i, c)
        default = r.choice(["lu", "lu", "chunk"])
        g = trx.Gen(r, "transfer", default)
        comp = Compiled(exes, g.prog, c)
        if not comp.ok: return
        for k in range(3):
            nob = r.random() < .2; dc = r.random() < .12
            it = trx.Interp(g.prog, dc, trx.nobil if nob else trx.prebil)
            wf = trx.word_plain if nob else (lambda r: trx.word_b(r, 0.0))
            segs = trx.gen_segments(r, wf, r.choice([1, 1, 3]), prog=None if nob else g.prog)
            try: exp = it.run(segs)
            except trx.BadProgram as e: c.ev("discarded"); continue
            opts = (["-w"] if dc else [])
            out = compare(c, comp, segs, exp, opts, "-n" if nob else "-b")
            for n, v in it.stats.items(): c.ev(n, v)
            if it.stats.get("rule_applied"): c.seen((g.prog["rules"], exp))
            if out and k == 0 and it.stats.get("rule_applied"): c.sample({"in": trx.seg_text(segs[0])[:200], "out": out[:200]})
    chk.run_cases(case, chk.n(2000, 50000))
    chk.min_evals = 1000
if __name__ == "__main__": main(main_, "T03", "one case = one random transfer rules file over the whole rule language, compiled by apertium-preprocess-transfer and run on random streams under ASan+UBSan, output compared byte for byte with a reference interpreter (lib/trx.py); non-trivial = at least one rule applied, distinct by rules and output",
     ["reference interpreter lib/trx.py", "ICU case mapping"])
