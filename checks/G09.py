"""G09: the sliding-window tagger: trained parameters and chosen tags."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import tag, stream as S

def valid(d, forbid, enforce, a, b, c):
    return (a, b) not in forbid and (b, c) not in forbid and (a not in enforce or b in enforce[a]) and (b not in enforce or c in enforce[b])

def train(d, cells, iters):
    """The parameters the training text gives."""
    forbid = {(d.index[a], d.index[b]) for a, b in d.forbid}
    enf = {}
    for a, bs in d.enforce:
        s = {d.index[b] for b in bs}; enf[d.index[a]] = enf.get(d.index[a], s) & s
    # enforcement looks at the left pair, then at the right one
    D = {}
    win = list(zip([[tag.SENT]] + cells, cells, cells[1:]))
    for l, m, r in win:
        seqs = [(a, b, c) for a in l for b in m for c in r if valid(d, forbid, enf, a, b, c)]
        for q in seqs: D[q] = D.get(q, 0) + 1 / len(seqs)
    for _ in range(iters):
        new = {}
        for l, m, r in win:
            seqs = [(a, b, c) for a in l for b in m for c in r]
            z = sum(D.get(q, 0) for q in seqs)
            if z > tag.ZERO:
                for q in seqs:
                    if q in D: new[q] = new.get(q, 0) + D[q] / z
        D = new
    return D, forbid, enf

def main_(chk):
    exe = chk.build(["apertium-tagger"])["apertium-tagger"]
    def case(r, i, c):
        d = tag.TagDef(r); lex = tag.Lexicon(r, d, n=r.choice([12, 30]), plus=r.choice([0, .15]))
        text, sents = lex.corpus(r, r.choice([1, 3, 20, 40]), unk=r.choice([0, .08]))
        iters = r.choice([0, 0, 1, 2, 4])
        x, m = tag.train_hmm(r, exe, d, lex, iters=iters, corpus=text, lsw=True); c.evals += 1
        files = {"tsx": m.text, "corpus": text, "dic": open(os.path.join(scratch(), "m.dic")).read()}
        if c.san(x, **files): return
        if x.rc: c.violation("train", "-w -t %d failed: %r" % (iters, x.err[-400:]), **files); return
        p = tag.ProbLSW(open(m.path, "rb").read())
        cells = []
        for s in sents:
            for k, w in s: cells += [sorted(d.open)] if k == "u" else [sorted(q) for q in lex.t[w]]
        cells.append([tag.KEOF])
        D, forbid, enf = train(d, cells, iters)
        c.ev("parameters", len(p.D)); c.ev("iterations", iters); c.ev("models")
        for k, v in p.D.items():
            if not 0 <= v < float("inf"): c.violation("range", "parameter %r is %r" % (k, v), **files); return
            if not valid(d, forbid, enf, *k): c.violation("forbidden", "the excluded sequence %s has the parameter %g" % ([d.names[t] for t in k], v), **files); return
        if forbid or enf: c.ev("with_rules")
        for k in set(D) | set(p.D):
            a, b = p.D.get(k, 0), D.get(k, 0)
            if abs(a - b) > 1e-9 * max(a, b) + 2 * tag.ZERO:
                c.violation("values", "%d iterations: window %s has %.12g, the training text gives %.12g" % (iters, [d.names[t] for t in k], a, b), **files); return
        # tagging under random parameters
        for _ in range(r.choice([1, 3])):
            k = r.choice(["keep", "int", "real", "sparse"])
            if k != "keep":
                E = dict(p.D)
                for q in list(D): E[q] = 1
                for _ in range(200): E[tuple(r.choice(sorted(r.choice(list(p.classes)))) for _ in range(3))] = 1
                E = {q: {"int": r.choice([1, 1, 2, 3]), "real": r.random(), "sparse": r.choice([1e-9, 1, 1e6 * r.random()])}[k] for q in E}
            else: E = p.D
            if k != "keep": p = p.patch(E)
            with open(m.path, "wb") as f: f.write(p.data)
            files["prob"] = p.data
            words = dict(lex.words); tr = dict(lex.t)
            units = lex.sentence(r, r.choice([0, 1, 2, 5, 20]), .15)
            inp = "".join(tag.blank(r) + lex.unit(u) for u in units) + tag.blank(r)
            x = run([exe, "-w", "-g", m.path], inp); c.evals += 1
            files["input"] = inp
            if c.san(x, **files): return
            want = []; bl = [v for kk, v in S.tokenize(inp)]
            cells = [[tag.SENT]]; owner = []
            for kk, w in units:
                if kk == "u": cells.append(sorted(d.open)); owner.append(None)
                else:
                    for n, q in enumerate(tr[w]): cells.append(sorted(q)); owner.append((w, n))
            cells.append([tag.KEOF])
            # ties to within rounding: any of the best
            best = []
            for n in range(1, len(cells) - 1):
                sc = {b: sum(E.get((a, b, q), 0) for a in cells[n - 1] for q in cells[n + 1]) for b in cells[n]}
                top = max(sc.values()); best.append({b for b in sc if sc[b] >= top * (1 - 1e-12)}); c.ev("choices" if len(sc) > 1 else "only_choices")
                c.seen((tuple(cells[n - 1]), tuple(cells[n]), tuple(cells[n + 1]), round(top, 6)))
                # first of exactly equal ones
                if len(best[-1]) > 1: c.ev("ties")
            n = 0; out = x.out.decode("utf8", "replace"); opts = []
            for kk, w in units:
                if kk == "u": opts.append({"*" + w}); n += 1; continue
                s = [""]
                for j, q in enumerate(tr[w]): s = [y + ("+" if j else "") + q[t] for y in s for t in best[n + j]]
                n += len(tr[w]); opts.append(set(s))
            try: got = S.tokenize(out)
            except S.Malformed as e: c.violation("output", "%s: %r" % (e, out[:400]), **files); return
            us = [v for kk, v in got if kk == "lu"]
            if len(us) != len(opts): c.violation("output", "%d units for %d words: %r" % (len(us), len(opts), out[:400]), **files); return
            for u, o, (kk, w) in zip(us, opts, units):
                if u not in o: c.violation("choice", "word %r came out as %r, the window sums give %s" % (w, u, sorted(o)), **files); return
            if [v for kk, v in got if kk != "lu"] != [v for kk, v in S.tokenize(inp) if kk != "lu"]:
                c.violation("blanks", "the text between the words changed: %r -> %r" % (inp[:300], out[:300]), **files); return
            if i < 5: c.sample({"input": inp[:120], "output": out[:120], "iterations": iters})
    chk.run_cases(case, chk.n(500, 10000))
    chk.min_evals = 600
if __name__ == "__main__": main(main_, "G09", "one case = one generated tag definition, dictionary and corpus trained with the sliding window for 0-4 iterations: all parameters must be finite, non-negative, absent for excluded sequences and equal to those an independent implementation computes; then texts are tagged under these or random parameters and every word must get a tag with the greatest window sum (unknown words counting as the open class), and the text between words must be kept; distinct by window and score",
     ["tags whose sums agree to 1e-12 count as equally good"])
