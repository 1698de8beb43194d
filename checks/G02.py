"""G02, G03 (HMM): the tagger outputs a most probable sequence; sentences do not
depend on what came before."""
import os, sys, random
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import tag, stream as S

def matrices(r, p):
    """Random transition and emission values for a model."""
    k = r.choice(["uniform", "peaked", "tiny", "near", "keep"])
    def v():
        x = r.random()
        if k == "uniform": return x
        if k == "peaked": return x ** 8 + 1e-9
        if k == "tiny": return x * 10 ** -r.choice([1, 4, 9])
        return .5 + x * 1e-6
    if k == "keep": return p.A, p.B
    A = [[v() for _ in range(p.N)] for _ in range(p.N)]
    for i in range(p.N):
        s = sum(A[i])
        A[i] = [x / s for x in A[i]]
        for j in range(p.N):
            if r.random() < .06: A[i][j] = 1e-10
    return A, {x: v() for x in p.B}

class Trellis:
    def __init__(self, p, A, B):
        self.A = [[Fr(x) for x in row] for row in A]; self.B = {k: Fr(x) for k, x in B.items()}
        self.cls = {c: k for k, c in enumerate(p.classes)}; self.classes = p.classes; self.open = frozenset(p.open)
    def emission(self, tags):
        """Index of the class of a set of tags: itself, or the smallest class that
        includes it (the open class if there is none smaller)."""
        f = frozenset(tags)
        if f in self.cls: return self.cls[f]
        best = self.open
        for c in self.classes:
            if len(c) < len(best) and f <= c: best = c
        return self.cls[best]
    def best(self, prev, cells, allowed=None):
        """Probability of the best path through cells (lists of tags) after prev,
        restricted to allowed[i] where given."""
        al = {prev: Fr(1)}
        for n, tags in enumerate(cells):
            k = self.emission(tags); new = {}
            for t in tags:
                if allowed is not None and allowed[n] is not None and t not in allowed[n]: continue
                b = self.B.get((t, k), Fr(tag.ZERO))
                new[t] = max(al[q] * self.A[q][t] for q in al) * b
            al = new
            if not al: return Fr(-1)
        return max(al.values())

def main_(chk):
    exe = chk.build(["apertium-tagger"])["apertium-tagger"]
    def case(r, i, c):
        d = tag.TagDef(r); lex = tag.Lexicon(r, d, n=r.choice([12, 24]), plus=r.choice([0, .15]))
        x, m = tag.train_hmm(r, exe, d, lex)
        files = {"tsx": m.text}
        if c.san(x, **files): return
        if x.rc: c.ev("untrained"); return
        p0 = tag.Prob(open(m.path, "rb").read())
        A, B = matrices(r, p0); p = p0.patch(A, B)
        with open(m.path, "wb") as f: f.write(p.data)
        T = Trellis(p, A, B)
        files["prob"] = p.data
        words = dict(lex.words); tr = dict(lex.t)
        # words whose ambiguity class the model has not seen
        for _ in range(r.choice([0, 3])):
            a, b = r.sample(lex.base, 2) if len(lex.base) > 1 else (None, None)
            if a is None: break
            an = list(dict.fromkeys(lex.words[a] + lex.words[b])); t = d.word(an)
            if t is None: continue
            w = "new" + "".join(r.choice(tag.CHARS) for _ in range(3)); words[w] = an; tr[w] = t
        amb = [w for w in words if all(len(q) > 1 for q in tr[w])] or list(words)
        long = r.random() < .12
        for _ in range(r.choice([2, 5])):
            n = r.choice([1, 3, 8, 20]) if not long else r.choice([40, 120, 260, 600])
            units = []
            for _ in range(n):
                y = r.random()
                if y < (.1 if not long else .02): units.append(("u", "".join(r.choice(tag.CHARS) for _ in range(5))))
                elif y < (.75 if not long else .999): units.append(("w", r.choice(amb)))
                else: units.append(("w", r.choice(list(words))))
            if r.random() < .8: units.append(("w", "."))
            inp = "".join(tag.blank(r) + ("^%s/%s$" % (w, "/".join(words[w])) if k == "w" else "^%s/*%s$" % (w, w)) for k, w in units) + "\n"
            x = run([exe, "-g", m.path], inp); c.evals += 1
            files["input"] = inp
            if c.san(x, **files): return
            try: us = [v for k, v in S.tokenize(x.out.decode("utf8", "replace")) if k == "lu"]
            except S.Malformed as e: c.violation("output", "%s: %r" % (e, x.out[:500]), **files); return
            if len(us) != len(units): c.violation("output", "%d units for %d words: %r" % (len(us), len(units), x.out[:500]), **files); return
            cells, allowed = [], []
            for (k, w), u in zip(units, us):
                if k == "u":
                    if u != "*" + w: c.violation("unknown", "unknown word %r output as %r" % (w, u), **files); return
                    cells.append(sorted(d.open)); allowed.append(None); continue
                q = tr[w]
                parts = None
                # which tags give this output
                def match(n, rest):
                    if n == len(q): return [] if rest is None else None
                    if rest is None: return None
                    for t, a in q[n].items():
                        if rest == a:
                            y = match(n + 1, None)
                            if y is not None: return [t] + y
                        if rest.startswith(a + "+"):
                            y = match(n + 1, rest[len(a) + 1:])
                            if y is not None: return [t] + y
                    return None
                parts = match(0, u)
                if parts is None: c.violation("notanalysis", "word %r with forms %r was output as %r" % (w, q, u), **files); return
                for cell, t in zip(q, parts): cells.append(sorted(cell)); allowed.append({t2 for t2 in cell if cell[t2] == cell[t]})
            # segments between unambiguous points
            cells.append([tag.KEOF]); allowed.append(None)
            prev = tag.SENT; b = 0
            for e, cell in enumerate(cells):
                if len(cell) > 1: continue
                if e > b:
                    best = T.best(prev, cells[b:e + 1]); got = T.best(prev, cells[b:e + 1], allowed[b:e + 1])
                    c.ev("ambiguous_runs"); c.ev("ambiguous_words", e - b)
                    if e - b >= 30: c.ev("long_runs")
                    c.seen(tuple(tuple(x) for x in cells[b:e + 1]) + (got.numerator % 1000003,))
                    if got < best * (1 - Fr(1, 10 ** 9)):
                        c.violation("viterbi" + ("-long" if e - b >= 30 else ""), "run of %d ambiguous words after tag %s: the output's probability is %.6g of the best sequence's\n%s\nchosen %s" % (
                            e - b, d.names[prev], float(got / best) if best else -1, [[d.names[t] for t in q] for q in cells[b:e + 1]][:12], [a and sorted(d.names[t] for t in a) for a in allowed[b:e + 1]][:12]), **files); return
                prev = cell[0]; b = e + 1
        if i < 4: c.sample({"tags": d.names[7:], "input": inp[:120], "output": x.out.decode("utf8", "replace")[:120]})
    chk.run_cases(case, chk.n(260, 6000))
    chk.min_evals = 400
if __name__ == "__main__": main(main_, "G02", "one case = one generated model whose transition and emission probabilities are then set to random values (uniform, peaked, tiny, nearly equal) and up to five texts, some with runs of hundreds of ambiguous words and with unseen ambiguity classes; for every maximal run of ambiguous words the exact (rational) probability of the best sequence compatible with the output must equal the best over all sequences to 1e-9; distinct by run and probability",
     ["an ambiguity class the model lacks is replaced by the smallest class of the model that includes it, else the open class, as the tagger documents"])
