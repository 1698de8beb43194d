"""G05: trained HMM models are probability distributions honouring the rules,
and the ones the training data determines."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import tag
Z = tag.ZERO

class Ref:
    """An independent reading of the training procedures."""
    def __init__(self, d, p):
        self.d = d; self.N = p.N; self.classes = p.classes; self.k = {c: i for i, c in enumerate(p.classes)}
        self.forbid = {(d.index[a], d.index[b]) for a, b in d.forbid}
        for a, bs in d.enforce:
            ok = {d.index[b] for b in bs}
            self.forbid |= {(d.index[a], j) for j in range(self.N) if j not in ok}
        self.A = self.B = None
    def cls(self, cells): return [self.k[frozenset(c)] for c in cells]
    def rules(self):
        for i, j in self.forbid: self.A[i][j] = Z
        self.mass = []
        for i in range(self.N):
            s = sum(self.A[i]); self.mass.append(s); self.A[i] = [x / s if s > 0 else 0 for x in self.A[i]]
    def kupiec(self, cells):
        N, M = self.N, len(self.classes)
        occ = [1.0] * M; pair = [[1.0] * M for _ in range(M)]
        k1 = self.k[frozenset([tag.SENT])]
        for k2 in self.cls(cells):
            occ[k1] += 1; pair[k1][k2] += 1; k1 = k2
        est = [sum(occ[k] / len(self.classes[k]) for k in range(M) if i in self.classes[k]) for i in range(N)]
        pe = [[0.0] * N for _ in range(N)]
        for x in range(M):
            for y in range(M):
                n = pair[x][y] / (len(self.classes[x]) * len(self.classes[y])) if self.classes[x] and self.classes[y] else 0
                for a in self.classes[x]:
                    for b in self.classes[y]: pe[a][b] += n
        self.A = [[x / sum(r) for x in r] if sum(r) else [0] * N for r in pe]
        self.B = {(i, k): occ[k] / len(self.classes[k]) / est[i] for k in range(M) for i in self.classes[k]}
        self.rules()
    def supervised(self, tagged, cells):
        """tagged: the tag of each word or None (unknown)."""
        N = self.N; pair = [[0] * N for _ in range(N)]; em = {}
        t1 = tag.SENT
        for t, k in zip(tagged, self.cls(cells)):
            t2, t1 = t1, t
            if t1 is not None and t2 is not None: pair[t2][t1] += 1
            if t1 is not None: em[t1, k] = em.get((t1, k), 0) + 1
        self.A = [[(x + 1) / (sum(r) + N) for x in r] for r in pair]
        self.B = {}
        for i in range(N):
            ks = [k for k, c in enumerate(self.classes) if i in c]
            tot = sum(em.get((i, k), 0) for k in ks)
            for k in ks: self.B[i, k] = (em.get((i, k), 0) + 1 / len(ks)) / (tot + 1)
        self.rules()
    def baum_welch(self, cells, iters):
        ks = self.cls(cells)
        for _ in range(iters):
            xi = {}; phi = {}
            prev = tag.SENT; b = 0
            for e, cell in enumerate(cells):
                if len(cell) > 1: continue
                seg = [sorted(c) for c in cells[b:e + 1]]; sk = ks[b:e + 1]
                al = [{prev: 1.0}]
                for c, k in zip(seg, sk):
                    a = {t: sum(al[-1][q] * self.A[q][t] for q in al[-1]) * self.B[t, k] for t in c}
                    s = sum(a.values())
                    if s <= 0: raise OverflowError
                    al.append({t: x / s for t, x in a.items()})
                be = {seg[-1][0]: 1.0}
                for n in range(len(seg) - 1, -1, -1):
                    c, k = seg[n], sk[n]
                    z = sum(al[n + 1][t] * be[t] for t in c)
                    for t in c: phi[t, k] = phi.get((t, k), 0) + al[n + 1][t] * be[t] / z
                    joint = {(q, t): al[n][q] * self.A[q][t] * self.B[t, k] * be[t] for q in al[n] for t in c}
                    z = sum(joint.values())
                    for (q, t), x in joint.items(): xi[q, t] = xi.get((q, t), 0) + x / z
                    nb = {q: sum(self.A[q][t] * self.B[t, k] * be[t] for t in c) for q in al[n]}
                    s = sum(nb.values()); be = {q: x / s for q, x in nb.items()}
                prev = seg[-1][0]; b = e + 1
            gamma = {}
            for (t, k), x in phi.items(): gamma[t] = gamma.get(t, 0) + x
            A = [[Z] * self.N for _ in range(self.N)]
            for (q, t), x in xi.items():
                g = gamma.get(q, 0)
                if x > 0: A[q][t] = x / g if g else math.inf
            B = {x: Z for x in self.B}
            for (t, k), x in phi.items():
                if x > 0: B[t, k] = x / gamma[t]
            self.A = [[x / sum(r) if x < math.inf else 1.0 for x in r] for r in A]
            for i in range(self.N):
                kk = [k for k, c in enumerate(self.classes) if i in c]; s = sum(B[i, k] for k in kk)
                for k in kk: B[i, k] /= s
            self.B = B
        self.rules()

def close(a, b, tol=1e-6): return abs(a - b) <= tol * max(abs(a), abs(b)) + 2e-9

def main_(chk):
    exe = chk.build(["apertium-tagger"])["apertium-tagger"]
    def case(r, i, c):
        d = tag.TagDef(r); lex = tag.Lexicon(r, d, n=r.choice([12, 30]), plus=r.choice([0, .15]))
        text, sents = lex.corpus(r, r.choice([1, 5, 20, 60]), unk=r.choice([0, .08]), wordmax=r.choice([4, 12]))
        def cells_of(ss):
            out = []
            for s in ss:
                for k, w in s: out += [set(d.open)] if k == "u" else [set(q) for q in lex.t[w]]
            return out + [{tag.KEOF}]
        cells = cells_of(sents)
        mode = r.choice(["t", "t", "s", "r"]); iters = r.choice([0, 0, 1, 1, 2, 5])
        tsx = tag.put("m.tsx", d.xml()); dic = tag.put("m.dic", lex.dictionary(r)); crp = tag.put("m.crp", text); prob = os.path.join(scratch(), "m.prob")
        if os.path.exists(prob): os.unlink(prob)
        files = {"tsx": d.xml(), "dic": open(dic).read(), "corpus": text}
        if mode == "s":
            # a hand-tagged corpus: one analysis per word
            stext, ss = lex.corpus(r, r.choice([1, 5, 30]), unk=r.choice([0, .08]))
            tagged = []; lines = []
            for s in ss:
                for k, w in s:
                    if k == "u": lines.append("^%s/*%s$" % (w, w)); tagged.append(None); continue
                    pick = [r.choice(sorted(q)) for q in lex.t[w]]
                    a = "+".join(q[t] for q, t in zip(lex.t[w], pick))
                    lines.append("^%s/%s$" % (w, a)); tagged += pick
                    # alone, the analysis must keep its tags
                    if [p[0] for p in d.parts(a) or []] != pick: return
            tg = tag.put("m.tagged", "\n".join(lines) + "\n"); un = tag.put("m.untagged", stext)
            files.update(tagged="\n".join(lines), untagged=stext)
            if iters: cmd = [exe, "-s", iters, dic, crp, tsx, prob, tg, un]
            else: cmd = [exe, "-s", 0, dic, tsx, prob, tg, un]
        else: cmd = [exe, "-t", iters if mode == "t" else 0, dic, crp, tsx, prob]
        x = run(cmd); c.evals += 1
        if c.san(x, **files): return
        if x.rc: c.violation("train", "%s failed: %r" % (" ".join(map(str, cmd[1:3])), x.err[-500:]), **files); return
        if mode == "r":
            x = run([exe, "-r", iters, crp, prob]); c.evals += 1
            if c.san(x, **files): return
            if x.rc: c.violation("train", "-r failed: %r" % x.err[-500:], **files); return
        p = tag.Prob(open(prob, "rb").read())
        ref = Ref(d, p)
        # distribution
        for n, row in enumerate(p.A):
            s = sum(row)
            if any(not 0 <= v <= 1 + 1e-9 for v in row): c.violation("range-A", "transition out of range after tag %s: %r" % (d.names[n], [v for v in row if not 0 <= v <= 1][:3]), **files); return
            if not abs(s - 1) < 1e-6: c.violation("sum-A", "transitions after %s sum to %r" % (d.names[n], s), **files); return
        for n in range(p.N):
            vs = [v for (t, k), v in p.B.items() if t == n]
            if any(not 0 <= v <= 1 + 1e-9 for v in vs): c.violation("range-B", "emission out of range for tag %s: %r" % (d.names[n], vs[:5]), **files); return
            if vs and not abs(sum(vs) - 1) < 1e-6: c.violation("sum-B", "emissions of %s sum to %r" % (d.names[n], sum(vs)), **files); return
        if set(p.B) != {(t, k) for k, cl in enumerate(p.classes) for t in cl}: c.violation("support-B", "emissions outside the ambiguity classes", **files); return
        c.ev("rows", 2 * p.N)
        # values
        try:
            if mode == "s": ref.supervised(tagged + [tag.KEOF], cells_of(ss))
            else: ref.kupiec(cells)
            if mode == "r": ref.rules()
            if mode != "s" or iters: ref.baum_welch(cells, iters)
        except (OverflowError, ZeroDivisionError):
            c.ev("reference_underflow"); return
        # a row that holds more weight than the floors gives forbidden ones nothing
        for a, b in ref.forbid:
            c.ev("forbidden_transitions")
            if ref.mass[a] < 1e-3: c.ev("forbidden_in_rows_without_weight")
            elif p.A[a][b] > 1.01e-10 / ref.mass[a]: c.violation("forbidden", "forbidden transition %s -> %s has probability %g" % (d.names[a], d.names[b], p.A[a][b]), **files); return
        bad = [(d.names[a], d.names[b], p.A[a][b], ref.A[a][b]) for a in range(p.N) for b in range(p.N) if not close(p.A[a][b], ref.A[a][b])]
        if bad: c.violation("values-A-%s" % mode, "mode %s, %d iterations: transition %s -> %s is %.9g, the training data give %.9g (%d differ)" % ((mode, iters) + bad[0] + (len(bad),)), **files); return
        bad = [(d.names[a], [d.names[t] for t in sorted(p.classes[k])], p.B[a, k], ref.B[a, k]) for a, k in p.B if not close(p.B[a, k], ref.B[a, k])]
        if bad: c.violation("values-B-%s" % mode, "mode %s, %d iterations: emission of class %s by %s is %.9g, the training data give %.9g (%d differ)" % (mode, iters, bad[0][1], bad[0][0], bad[0][2], bad[0][3], len(bad)), **files); return
        c.ev("models_" + mode); c.ev("iterations", iters); c.ev("parameters", p.N * p.N + len(p.B)); c.seen((files["tsx"], text, mode, iters))
        if i < 6: c.sample({"mode": mode, "iterations": iters, "tags": p.N, "classes": p.M, "words": len(cells), "forbidden": len(ref.forbid)})
    chk.run_cases(case, chk.n(900, 20000))
    chk.min_evals = 300
if __name__ == "__main__": main(main_, "G05", "one case = one generated tag definition, dictionary and corpus and one way of training (Kupiec and Baum-Welch, hand-tagged corpus, retraining; 0-5 iterations): every row of the model file must be a distribution, forbidden and enforced-out transitions stay at the floor, and all parameters must equal those an independent implementation computes; distinct by definition, corpus and way of training",
     ["the corpora stay below the lengths where the reference's floating point would differ by more than 1e-6"])
