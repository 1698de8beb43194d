"""G07: the unigram taggers: counted model and chosen analyses."""
import os, sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import tag, stream as S

# ---------------------------------------------------------------- analyses
# an analysis is a tuple of (lemma with its queue, tags)
def gen_word(r, pool):
    if pool and r.random() < .6: return r.choice(pool)
    w = "".join(r.choice(tag.CHARS[:5] if r.random() < .8 else tag.ODDL) for _ in range(r.randint(1, 4)))
    x = r.random()
    if x < .08: w = w.capitalize()
    elif x < .12: w += r.choice([" b", "\\/", "\\$", "\\^x", "\\<", "-a", "'s", "😀", "𝔘k"])
    pool.append(w); return w
def gen_tags(r, pool):
    if pool and r.random() < .75: return r.choice(pool)
    p = r.choice(list(tag.FINE)); t = (p + ("." + r.choice(tag.FINE[p]) if r.choice(tag.FINE[p]) else "")).rstrip(".").split(".")
    if r.random() < .04: t.append(r.choice(["é", "x-y", "日"]))
    pool.append(tuple(t)); return tuple(t)
def gen_analysis(r, lem, tg):
    n = r.choice([1, 1, 1, 1, 2, 2, 3, r.randint(2, 6)]); out = []
    for _ in range(n):
        q = "# " + r.choice(["up", "out", "é"]) if r.random() < .08 else ""
        out.append((gen_word(r, lem), gen_tags(r, tg), q))
    return tuple(out)
def vary(r, a, lem, tg):
    """An analysis that differs from a in one part."""
    a = list(a); k = r.randrange(len(a)); l, t, q = a[k]; x = r.random()
    if x < .4: a[k] = (gen_word(r, lem), t, q)
    elif x < .8: a[k] = (l, gen_tags(r, tg), q)
    elif x < .9: a.append((gen_word(r, lem), gen_tags(r, tg), ""))
    elif len(a) > 1: del a[k]
    return tuple(a)
def written(a, queue_last=True):
    o = []
    for l, t, q in a:
        tt = "".join("<%s>" % x for x in t)
        o.append(l + tt + q if queue_last else l + q + tt)
    return "+".join(o)
def norm(a): return tuple((l + q, t) for l, t, q in a)

# ------------------------------------------------------------------ models
def bump(m, k, j, n):
    d = m.setdefault(k, {}); d[j] = d.get(j, 0) + n
class Counts:
    """What the training text says; fractions instead of a growing multiplier."""
    def __init__(self, model): self.model = model; self.m = [{}, {}, {}]; self.mult = 1
    def add(self, analyses):
        n = len(analyses)
        if self.mult % n: self.mult *= n
        w = Fr(1, n)
        for a in analyses:
            a = norm(a)
            if self.model == 1: self.m[0][a] = self.m[0].get(a, 0) + w
            elif self.model == 2: bump(self.m[0], (a[0][1], a[1:]), a[0][0], w)
            else:
                bump(self.m[0], a[0][1], a[0][0], w)
                for p, q in zip(a, a[1:]):
                    bump(self.m[1], p[1], q[0], w); bump(self.m[2], q[0], q[1], w)
    def scaled(self):
        f = lambda v: {k: f(x) for k, x in v.items()} if isinstance(v, dict) else v * self.mult
        return [f(x) for x in self.m[:1 if self.model < 3 else 3]]
    def score(self, a):
        a = norm(a); M = self.scaled_
        def part(m, key, x):
            d = m.get(key)
            if d is None: return 1, 1, 1
            return 1 + d.get(x, 0), 1 + sum(d.values()), len(d) + (x not in d)
        if self.model == 1: return Fr(1 + M[0].get(a, 0))
        r, t, ty = part(M[0], (a[0][1], a[1:]) if self.model == 2 else a[0][1], a[0][0])
        s = Fr(r * t, t + ty)
        if self.model == 3:
            for p, q in zip(a, a[1:]):
                r1, t1, y1 = part(M[1], p[1], q[0]); r2, t2, y2 = part(M[2], q[0], q[1])
                s *= Fr(r1 * r2, (t1 + y1) * (t2 + y2))
        return s

class Bin:
    def __init__(self, b): self.b = b; self.i = 0
    def num(self):
        n = self.b[self.i]; v = int.from_bytes(self.b[self.i + 1:self.i + 1 + n], "big"); self.i += 1 + n; return v
    def st(self):
        u = [self.num() for _ in range(self.num())]
        return b"".join(x.to_bytes(2, "little") for x in u).decode("utf-16-le", "surrogatepass")
    def tags(self): return tuple(self.st() for _ in range(self.num()))
    def morphs(self): return tuple((self.st(), self.tags()) for _ in range(self.num()))
    def map(self, k, v): return {(kk := k()): v() for _ in range(self.num())}
def read_model(data, model):
    b = Bin(data)
    if model == 1: m = [b.map(b.morphs, b.num)]
    elif model == 2: m = [b.map(lambda: (b.tags(), b.morphs()), lambda: b.map(b.st, b.num))]
    else: m = [b.map(b.tags, lambda: b.map(b.st, b.num)), b.map(b.tags, lambda: b.map(b.st, b.num)), b.map(b.st, lambda: b.map(b.tags, b.num))]
    if b.i != len(data): raise ValueError("%d bytes left" % (len(data) - b.i))
    return m

def main_(chk):
    exe = chk.build(["apertium-tagger"])["apertium-tagger"]
    def case(r, i, c):
        model = r.choice([1, 2, 3]); lem, tg = [], []
        words = {}
        for _ in range(r.choice([3, 10, 30])):
            w = gen_word(r, []); an = []
            for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
                a = vary(r, r.choice(an), lem, tg) if an and r.random() < .4 else gen_analysis(r, lem, tg)
                if norm(a) not in [norm(x) for x in an]: an.append(a)
            words[w] = an
        ws = list(words)
        # training text: mostly disambiguated, some words left ambiguous
        cnt = Counts(model); o = []
        amb = r.choice([0, 0, .15, .4])
        for _ in range(r.choice([0, 1, 5, 40, 150])):
            w = r.choice(ws); an = words[w]
            k = [r.choice(an)] if r.random() >= amb else r.sample(an, r.randint(1, min(len(an), 5)))
            if r.random() < .05: k = [gen_analysis(r, lem, tg)]
            # the multiplier is a machine word
            if cnt.mult * len(k) > 10 ** 9: k = k[:1]
            cnt.add(k)
            o.append(tag.blank(r) + "^%s/%s$" % (w, "/".join(written(a) for a in k)))
            if len(k) > 1: c.ev("ambiguous_training_words")
        text = "".join(o) + ("\n" if r.random() < .5 else "")
        tp = tag.put("u.tagged", text); mp = os.path.join(scratch(), "u.model")
        if os.path.exists(mp): os.unlink(mp)
        x = run([exe, "-u", model, "-s", 0, mp, tp]); c.evals += 1
        files = {"tagged": text, "model_no": str(model)}
        if c.san(x, **files): return
        if x.rc: c.violation("train", "training failed: %r" % x.err[-300:], **files); return
        cnt.scaled_ = cnt.scaled()
        data = open(mp, "rb").read(); files["model"] = data
        try: got = read_model(data, model)
        except Exception as e: c.violation("format", "model file: %r" % e, **files); return
        if got != cnt.scaled_:
            c.violation("counts", "model %d: the file has %r, the training text gives %r" % (model, str(got)[:300], str(cnt.scaled_)[:300]), **files); return
        c.ev("models"); c.ev("counts", sum(len(v) for v in got[0].values()) if model > 1 else len(got[0]))
        for _ in range(r.choice([1, 2])):
            nul = r.random() < .3; opts = [f for f in ("-p", "-m", "-f") if r.random() < .3]
            units = []; inp = []; texts = r.choice([1, 2, 4]) if nul else 1; want = []
            for _t in range(texts):
                for _ in range(r.choice([0, 1, 2, 6, 25])):
                    if r.random() < .12:
                        w = gen_word(r, []); u = "^%s/*%s$" % (w, w); an = None
                    else:
                        w = r.choice(ws); an = list(words[w])
                        if r.random() < .15: an.append(gen_analysis(r, lem, tg))
                        while r.random() < .4 and len(an) < 9: an.append(vary(r, r.choice(an), lem, tg))
                        if r.random() < .2: r.shuffle(an)
                        an = [a for k, a in enumerate(an) if norm(a) not in [norm(z) for z in an[:k]]]
                        u = "^%s/%s$" % (w, "/".join(written(a) for a in an))
                    inp.append(tag.blank(r)); inp.append(u); want.append((inp[-2], w, an))
                inp.append(tag.blank(r)); want.append((inp[-1], None, None))
                if nul: inp.append("\0"); want.append(("\0", None, None))
            inp = "".join(inp)
            x = run([exe, "-u", model] + (["-z"] if nul else []) + opts + ["-g", mp], inp); c.evals += 1
            files.update(input=inp, options=" ".join(opts), stdout=x.out)
            if c.san(x, **files): return
            if x.rc: c.violation("status", "exit %d: %r" % (x.rc, x.err[-300:]), **files); return
            out = x.out.decode("utf8", "replace"); pos = 0
            for bl, w, an in want:
                cands = [bl]
                if w is not None:
                    sf = w + "/" if "-p" in opts else ""
                    if an is None: cands = [bl + "^" + sf + "*" + w + "$"]
                    else:
                        sc = [cnt.score(a) for a in an]; top = max(sc)
                        best = [k for k in range(len(an)) if sc[k] == top][:1] if model == 1 else [k for k in range(len(an)) if sc[k] >= top * (1 - Fr(1, 10 ** 15))]
                        # equal scores from equal factors: the first one
                        if model > 1 and all(not cnt.scaled_[0].get(key(an[k], model)) for k in range(len(an))) and all(len(a) == 1 for a in an): best = [0]; c.ev("all_unseen")
                        c.ev("choices" if len(an) > 1 else "only_choices"); c.ev("ties", len(best) > 1)
                        if len(an) > 1: c.seen((model, tuple(sc)))
                        W = [written(a, False) for a in an]; cands = []
                        for k in best:
                            t = ("=" if "-m" in opts and len(an) != 1 else "") + sf + W[k]
                            if "-f" in opts: t += "".join("/" + z for j, z in enumerate(W) if j != k)
                            cands.append(bl + "^" + t + "$")
                for q in cands:
                    if out.startswith(q, pos): pos += len(q); break
                else:
                    c.violation("choice" if an else "text", "model %d: got %r, expected %s" % (model, out[pos:pos + 200], " or ".join(map(repr, cands))[:500]), **files); return
            if pos != len(out): c.violation("text", "extra output %r" % out[pos:][:200], **files); return
            if i < 5: c.sample({"model": model, "input": inp[:120], "output": out[:120]})
    def key(a, model):
        a = norm(a); return (a[0][1], a[1:]) if model == 2 else a[0][1]
    chk.run_cases(case, chk.n(1200, 30000))
    chk.min_evals = 1500
if __name__ == "__main__": main(main_, "G07", "one case = one generated word list, training text (with left-over ambiguity) and unigram model 1, 2 or 3, the counted model file read back and 1-2 streams tagged with it, compared with the counts and scores computed exactly from the training text",
     ["scores that agree to 1e-15 count as equal in models 2 and 3"])
