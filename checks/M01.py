"""M01: apertium-multiple-translations writes every combination."""
import os, re, sys
from itertools import product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from trxrun import *

def alternatives(tr):
    """The translations of one word in the order they are offered."""
    if tr.startswith("@"): tr = tr[1:]
    parts = S.split_unescaped(tr, "/")
    res = []
    for k, p in enumerate(parts):
        if res and " D<" in p: res.append(res[0]); res[0] = p      # the default sense goes first
        else: res.append(p)
    marked = [p for p in res if "__" in p]
    return marked if len(res) >= 2 and len(marked) >= 2 else res

def model(m, toks, table, st):
    encs = [m.key(w) for _, w in toks]; i = 0; out = []
    tr = lambda w: alternatives(w if w.startswith("*") else table.get(w, "@" + w))
    while i < len(toks):
        b = m.best(encs, i, ())
        n = b[1] if b else 1
        st("pattern_%d" % min(n, 5) if b else "default")
        ws = [tr(w) for _, w in toks[i:i + n]]; bl = [x[0] for x in toks[i + 1:i + n]] + [""]
        combos = ["".join("^%s$%s" % p for p in zip(c, bl)) for c in product(*ws)]
        st("combinations", len(combos))
        out.append(toks[i][0] + (combos[0] if len(combos) == 1 else "[{]" + "[|]".join(combos) + ".[][}]"))
        i += n
    return "".join(out)

def main_(chk):
    shim = chk.build(["apertium-multiple-translations"], more=[os.path.join(VERIF, "lib", "bishim.cc")])["apertium-multiple-translations"]
    exes = chk.build(["apertium-preprocess-transfer"])
    dix = os.path.join(chk.base, "empty.dix"); fst = os.path.join(chk.base, "empty.bin")
    with open(dix, "w") as f: f.write('<dictionary><alphabet/><sdefs><sdef n="n"/></sdefs><section id="m" type="standard"><e><p><l>a<s n="n"/></l><r>b<s n="n"/></r></p></e></section></dictionary>')
    subprocess.run(["lt-comp", "lr", dix, fst], check=True, stdout=subprocess.DEVNULL)
    def case(r, i, c):
        g = trx.Gen(r, "transfer", "lu")
        comp = Compiled(exes, g.prog, c)
        if not comp.ok: return
        m = trx.Matcher(g.prog)
        for k in range(3):
            g.prog["_bil"] = False
            segs = trx.gen_segments(r, trx.word_plain, 1, prog=g.prog)
            toks = []; table = {}
            for b, w in segs[0][0]:
                w = trx.split1(w, "/")[0]
                toks.append((b, w))
                if w.startswith("*") or w in table or r.random() < .2: continue
                x = r.random(); n = 1 if x < .4 else r.choice([2, 2, 3, 4])
                if len(toks) > 12 and n > 2: n = 2
                sense = r.random() < .5; tr = []
                for j in range(n):
                    l = trx.lemma(r)
                    if sense and r.random() < .7: l += "__" + r.choice(["a", "b", "1"])
                    if r.random() < .25: l += " D"
                    tr.append(l + (trx.rtags(r) or "<n>"))
                table[w] = "/".join(tr)
            tail = segs[0][1]
            path = os.path.join(scratch(), "table")
            with open(path, "w") as f: f.write("".join("%s\t%s\t0\n" % x for x in table.items()))
            want = model(m, toks, table, c.ev) + tail
            if len(want) > 200000: continue
            data = enc(trx.seg_text((toks, tail)))
            res = run([shim, comp.bin, fst], data, env=dict(core.ENV, VERIF_BIDIX=path)); c.evals += 1
            fl = dict(rules=comp.text, input=data, table=open(path).read(), observed=res.out, expected=want)
            if c.san(res, **fl): return
            if res.rc: c.violation("exit", "exit %d %s" % (res.rc, dec(res.err)[:500]), **fl); return
            got = dec(res.out)
            if got != want:
                c.violation("combinations", "input %r\n%s" % (dec(data)[:600], diff(want, got)), **fl); return
            if "[|]" in got: c.seen((data, got))
            if k == 0 and "[|]" in got: c.sample({"in": dec(data)[:150], "out": got[:250]})
    chk.run_cases(case, chk.n(1200, 30000)); chk.min_evals = 1500
import core
if __name__ == "__main__": main(main_, "M01", "one case = the patterns of a random transfer rules file, a random dictionary with one to four translations per word (default and numbered senses) and a random stream: the output must be, for each matched stretch, every combination of the alternatives once, in order, with the blanks in place; distinct = distinct (input, output) with alternatives",
     ["the bilingual lookup is a stand-in (lib/bishim.cc) because the installed lttoolbox's biltransWithQueue returns mangled results"])
