"""G01: the tagger chooses one of the given analyses and keeps the rest."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import itertools, re, tag, stream as S

ODDTAGS = ["zz1", "zz2", "é", "n.x", "KEY:x", "m"]
def analysis(r, d, plus):
    def one():
        l = "".join(r.choice(tag.CHARS if r.random() < .9 else tag.ODDL) for _ in range(r.randint(1, 5)))
        if r.random() < .1: l += r.choice([" b", "\\/", "\\<", "\\$", "\\*", "😀"])
        if r.random() < .1: l = l.capitalize()
        if r.random() < .25: t = ".".join(r.choice(ODDTAGS + list(tag.FINE)) for _ in range(r.randint(1, 3))).split(".")
        else:
            p = r.choice(d.pos); t = [p] + [x for x in r.choice(tag.FINE[p]).split(".") if x]
        return l + "".join("<%s>" % x for x in t)
    n = r.choice([2, 2, 3]) if r.random() < plus else 1
    return "+".join(one() for _ in range(n)) + ("# " + r.choice(["up", "é q"]) if r.random() < .1 else "")

def multan(r, d):
    """An analysis along one of the definition's multiword sequences, whole,
    broken off within its last word, or going on."""
    seq = r.choice(r.choice(d.mults)[2]); items = {n: it for n, _, it in d.labels}
    out = []
    for x in seq:
        l, t = r.choice(items[x[1]]) if x[0] == "l" else x[1:]
        l = (l or "".join(r.choice(tag.CHARS) for _ in range(r.randint(1, 4)))).replace("*", r.choice("abc"))
        ts = [y for p in t.split(".") for y in ([r.choice(["zz1", "m", "sg"]) for _ in range(r.choice([1, 2]))] if p == "*" else [p])]
        out.append((l, ts))
    x = r.random()
    if x < .6:
        l, ts = out[-1]; out[-1] = (l, ts[:r.randrange(len(ts)) or 1])
    if x > .4: out.append(("q", r.choice([["zz1"], ["zz2", "m"], [r.choice(d.pos)]])))
    return "+".join(l + "".join("<%s>" % t for t in ts) for l, ts in out)

class Word:
    """A word on input and what may come out for it."""
    def __init__(self, r, m, opts):
        self.fixed = True          # options' effects are exactly known
        lex, d, kind = m.lex, m.d, m.kind
        uni = kind[0] == "u"
        x = r.random(); self.unknown = False
        if x < .1:
            self.sf = "".join(r.choice(tag.CHARS + "é") for _ in range(r.randint(1, 6))) + r.choice(["", "", "\\$", "\\/", "😀"]); self.unknown = True; self.an = []
        elif x < .55: self.sf = r.choice(list(lex.words)); self.an = list(lex.words[self.sf])
        elif x < .75: self.sf = r.choice(lex.base); self.an = [multan(r, d) if d.mults and r.random() < .5 else analysis(r, d, .4)]
        else:
            self.sf = r.choice(lex.base); self.an = list(dict.fromkeys(analysis(r, d, .3 if uni else 0) for _ in range(r.randint(2, 5))))
        if uni and "-f" in opts: self.an = list(dict.fromkeys(self.an))
        self.unit = "^%s/%s$" % (self.sf, "/".join(self.an) if self.an else "*" + self.sf)
        sf = self.sf + "/" if "-p" in opts or ("-f" in opts and not uni) else ""
        if self.unknown: self.outs = {"%s*%s" % (sf, self.sf)}; self.kinds = {"unknown"}; return
        self.kinds = {"one" if len(self.an) == 1 else "several"}
        mark = {""}
        if uni:
            out = [re.sub(r"((?:(?<!\\)<[^>]*>)+)(# [^+]*)$", r"\2\1", a) for a in self.an]
            out = list(dict.fromkeys(out))
            if "-m" in opts: mark = {"="} if len(self.an) != 1 else {""}
            self.outs = set()
            for k in out:
                self.outs |= {q + sf + k + ("/" + "/".join(z for z in out if z != k) if "-f" in opts and len(out) > 1 else "") for q in mark}
            return
        queue = any("# " in a for a in self.an)
        cuts = any(">+" in a for a in self.an)
        if len(self.an) == 1:
            # never ambiguous
            self.outs = {sf + self.an[0]}
            if cuts: self.kinds.add("cut")
            return
        if cuts:
            self.kinds.add("cut")
            parts = d.word(self.an)
            first = parts[0]
            texts = ["+".join(q) for q in itertools.product(*[list(p.values()) for p in parts])]
            groups = None
        else:
            g = {}
            for a in self.an:
                t = d.classify(a); t = tag.KUNDEF if t is None else t
                if t not in g or any(p.search(a) for p in d.prefrx): g[t] = a
            for p in d.discrx:
                for t in sorted(g):
                    if len(g) > 1 and p.search(g[t]): del g[t]
            first = g; groups = [g[t] for t in sorted(g)]; texts = groups
            if queue: texts = self.an
        if "-m" in opts: mark = {"", "="} if queue else {"="} if len(first) > 1 else {""}
        self.outs = set(); self.all = None
        for t in texts:
            for q in mark:
                if "-f" in opts and groups is not None:
                    if queue: self.all = (sf, set(self.an)); self.outs.add(None)
                    else: self.outs.add(q + sf + "/".join([t] + [z for z in groups if z != t]))
                else: self.outs.add(q + sf + t)
    def ok(self, u):
        if u in self.outs: return True
        if None in self.outs:
            u = u.lstrip("=")
            if not u.startswith(self.all[0]): return False
            got = S.split_unescaped(u[len(self.all[0]):], "/")
            return len(set(got)) == len(got) and set(got) <= self.all[1]
        return False

def main_(chk):
    exe = chk.build(["apertium-tagger"])["apertium-tagger"]
    def case(r, i, c):
        kind = r.choice(["hmm"] * 4 + ["lsw"] * 2 + ["unigram1", "unigram2", "unigram3"])
        m = tag.model(r, exe, kind)
        files = {"tsx": m.text, "model": open(m.path, "rb").read()}
        for _ in range(r.choice([2, 4])):
            opts = [f for f in ("-p", "-m") if r.random() < .35]
            if kind != "lsw" and r.random() < .25: opts.append("-f")
            null = r.random() < .25
            texts = []
            for _t in range(r.choice([1, 2, 4]) if null else 1):
                its = []
                for _w in range(r.choice([0, 1, 2, 5, 30])):
                    its.append((tag.blank(r), Word(r, m, opts)))
                texts.append((its, tag.blank(r)))
            inp = "".join("".join(b + w.unit for b, w in its) + t + ("\0" if null else "") for its, t in texts)
            x = run([exe] + m.opts + ["-g"] + (["-z"] if null else []) + opts + [m.path], inp); c.evals += 1
            files.update(input=inp, stdout=x.out, options=" ".join(m.opts + opts))
            if c.san(x, **files): return
            if x.rc: c.violation("status-" + kind, "exit %d: %r" % (x.rc, x.err[-300:]), **files); return
            out = x.out.decode("utf8", "replace")
            # a program may end a stream that has ended with a further NUL
            if null and out.count("\0") == len(texts) + 1 and out.endswith("\0"): out = out[:-1]
            segs = out.split("\0")
            if null and segs.pop() != "" or len(segs) != len(texts):
                c.violation("segments-" + kind, "%d texts in, output %r" % (len(texts), out[-200:]), **files); return
            for (its, tail), o in zip(texts, segs):
                try: got = S.tokenize(o)
                except S.Malformed as e: c.violation("output-" + kind, "%s: %r" % (e, o[:400]), **files); return
                us = [v for k, v in got if k == "lu"]
                if len(us) != len(its): c.violation("count-" + kind, "%d words in, %d out: %r" % (len(its), len(us), o[:400]), **files); return
                for u, (b, w) in zip(us, its):
                    if not w.ok(u): c.violation("choice-" + kind, "options %s: %s came out as ^%s$" % (" ".join(opts), w.unit, u), **files); return
                    for k in w.kinds: c.ev("words_" + k)
                    if len(w.outs) > 1: c.seen((w.unit, u))
                bi = [v for k, v in S.tokenize("".join(b + "^a$" for b, w in its) + tail) if k != "lu"]
                bo = [v for k, v in got if k != "lu"]
                if bi != bo: c.violation("blanks-" + kind, "the text between the words changed: %r -> %r" % (bi[:10], bo[:10]), **files); return
            c.ev("streams_" + kind)
            for f in opts: c.ev("option" + f)
            if i < 5: c.sample({"kind": kind, "options": opts, "input": inp[:100], "output": out[:100]})
    def probes(r, i, c):
        # analyses that are cut into different numbers of words
        d = tag.TagDef(r, mult=False, rules=False, discard=False); d.labels = [("N", False, [(None, "n.*")]), ("V", False, [(None, "vblex.*")]), ("P", False, [(None, "prn.*")])]
        d.names = [b[0] for b in tag.BUILTIN] + ["N", "V", "P"]; d.index = {n: k for k, n in enumerate(d.names)}; d.lemmas = []; d.compile()
        lex = tag.Lexicon(r, d, n=0); lex.words = {"a": ["a<n><sg>"], "b": ["b<vblex><inf>"], "c": ["c<prn><p1>"], **{w: [w + "<%s>" % t] for w, t in tag.PUNCT}}; lex.base = list(lex.words)
        lex.t = {w: d.word(a) for w, a in lex.words.items()}
        x, m = tag.train_hmm(r, exe, d, lex, iters=0)
        for key, opts, unit, outs in [("plus-mix", [], "^x/x<n><sg>/y<vblex><inf>+c<prn><p1>$", ["^x<n><sg>$", "^y<vblex><inf>+c<prn><p1>$"]),
                                      ("plus-mix", [], "^x/x<n><sg>+c<prn><p1>/y<vblex><inf>$", ["^x<n><sg>+c<prn><p1>$", "^y<vblex><inf>$"])]:
            x = run([exe, "-g"] + opts + [m.path], unit); c.evals += 1
            if c.san(x, input=unit): return
            if x.out.decode() not in outs: c.violation(key, "%s %s came out as %s" % (" ".join(opts), unit, x.out.decode()), input=unit, tsx=m.text)
    chk.one(probes)
    chk.run_cases(case, chk.n(700, 15000))
    chk.min_evals = 1000
if __name__ == "__main__": main(main_, "G01", "one case = one generated model (HMM, sliding window, unigram 1-3) and 2-4 streams of known, unknown, ambiguous, multi-part, unclassified and queued words tagged with random output options, with and without null flush; every output unit is looked up among the outputs its input unit allows",
     ["words the tag definition cuts at '+' into words of their own may combine the parts of several analyses"])
