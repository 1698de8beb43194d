"""Tagger side: tag definitions, lexicons, models, streams, and the reference
classifier / .prob reader used by the G checks and by T07."""
import os, re, struct, unicodedata
import core, stream as S
from core import run, scratch

BUILTIN = [("LPAR", "lpar"), ("RPAR", "rpar"), ("LQUEST", "lquest"), ("CM", "cm"), ("SENT", "sent"), ("kEOF", None), ("kUNDEF", None)]
SENT, KEOF, KUNDEF = 4, 5, 6
CHARS = "abcdefghijklmnopqrstuvwxyz"
ODDL = "éñçß日語γдж"
FINE = {"n": ["m.sg", "m.pl", "f.sg", "f.pl"], "np": ["ant.m.sg", "loc.sg", "al"], "vblex": ["inf", "pri.p3.sg", "pri.p1.pl", "pp.m.sg", "ger"],
        "vbser": ["inf", "pri.p3.sg"], "adj": ["m.sg", "f.sg", "mf.sp"], "det": ["def.m.sg", "ind.f.pl", "pos.mf.sg"], "prn": ["enc.p3", "tn.p1", "pro.p2"],
        "adv": [""], "pr": [""], "cnjcoo": [""], "cnjsub": [""], "rel": ["an.mf.sp", "nn"], "num": ["mf.pl", ""], "ij": [""], "x2": ["a.b", ""]}
PUNCT = [(".", "sent"), ("!", "sent"), (",", "cm"), ("(", "lpar"), (")", "rpar"), ("¿", "lquest")]

def tagstr(tags): return "".join("<%s>" % t for t in tags.split(".") if t)

class TagDef:
    """A generated tag definition file and its meaning."""
    def __init__(self, r, mult=True, rules=True, discard=True, full=True, minopen=1):
        self.name = "t%d" % r.randrange(1000)
        self.labels = []; self.mults = []; self.forbid = []; self.enforce = []; self.prefer = []; self.discard = []
        pos = list(FINE); r.shuffle(pos)
        pos = pos[:r.randint(4, min(11, len(pos)))]
        self.pos = pos
        # lemma-specific definitions first, then the general ones, sometimes mixed
        groups = []
        rest = list(pos)
        while rest:
            k = r.choice([1, 1, 1, 2]); g, rest = rest[:k], rest[k:]
            items = []
            for p in g:
                x = r.random(); sub = r.choice(FINE[p])
                # a definition "p.*" does not cover the bare tag p
                if sub and x < .35:
                    groups.append((p.upper() + "".join(c for c in sub.upper() if c.isalnum()), [(None, p + "." + sub if r.random() < .5 else p + "." + sub.split(".")[0] + ".*")] ))
                if "" in FINE[p]: items.append((None, p))
                if FINE[p] != [""]: items.append((None, p + ".*"))
                if not full and r.random() < .3 and len(items) > 1: items.pop()
            groups.append(("".join(p.upper() for p in g), items))
        lem = []
        for _ in range(r.choice([0, 1, 2, 3])):
            p = r.choice(pos); sub = r.choice(FINE[p])
            w = "".join(r.choice(CHARS) for _ in range(r.randint(1, 4)))
            if r.random() < .25: w = w[:-1] + "*"
            elif r.random() < .2: w += r.choice(ODDL)
            t = (p + "." + sub) if sub else p
            if sub and r.random() < .5: t = p + ".*"
            lem.append(("L%s%d" % (p.upper(), len(lem)), [(w, t)]))
        self.lemmas = [i[0] for g in lem for i in g[1]]
        allg = lem + groups
        if r.random() < .3: r.shuffle(allg)
        seen = set()
        for n, items in allg:
            while n in seen: n += "X"
            seen.add(n)
            closed = r.random() < .35
            self.labels.append((n, closed, items))
        if sum(not c for _, c, _ in self.labels) < minopen:
            for k in range(minopen): n, c, it = self.labels[k]; self.labels[k] = (n, False, it)
        if mult:
            # lttoolbox's PatternList also loses sequences that begin with a
            # label after ones that begin with tags: one way per definition
            labelfirst = r.random() < .5
            for k in range(r.choice([0, 0, 1, 2])):
                seqs = []
                for _ in range(r.choice([1, 2])):
                    s = []
                    for n in range(r.choice([2, 2, 3])):
                        # lttoolbox loses alternatives of labels with several
                        # items inside a sequence: only single-item ones here
                        one = [n for n, _, it in self.labels if len(it) == 1]
                        if one and (r.random() < .7 if n else labelfirst): s.append(("l", r.choice(one)))
                        else:
                            p = r.choice(pos); sub = r.choice(FINE[p])
                            s.append(("t", r.choice([None] * 3 + self.lemmas), p + "." + sub if sub else p))
                    seqs.append(s)
                self.mults.append(("M%d" % k, r.random() < .7, seqs))
        names = [n for n, _, _ in self.labels] + [m[0] for m in self.mults]
        self.names = [b[0] for b in BUILTIN] + names
        self.index = {n: i for i, n in enumerate(self.names)}
        some = names + ["SENT", "CM", "LPAR"]
        if rules:
            for _ in range(r.choice([0, 0, 1, 2, 5])):
                f = (r.choice(some), r.choice(some))
                if f not in self.forbid: self.forbid.append(f)
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                self.enforce.append((r.choice(names), sorted(set(r.choice(names + ["SENT"]) for _ in range(r.choice([1, 2, 4]))))))
            for _ in range(r.choice([0, 0, 1, 2])):
                p = r.choice(pos); sub = r.choice(FINE[p])
                self.prefer.append(r.choice([p + "." + sub if sub else p, (sub.split(".")[-1] or p), p + ".*" if sub else p] + ([p + ".*." + sub.split(".")[-1], "*." + sub.split(".")[-1]] if "." in sub else [])))
        if discard:
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                p = r.choice(pos); sub = r.choice(FINE[p])
                self.discard.append(r.choice([p + "." + sub if sub else p, p, p + ".*" if sub else p] + ([p + ".*." + sub.split(".")[-1]] if "." in sub else [])))
        self.compile()
    def xml(self):
        o = ['<?xml version="1.0" encoding="UTF-8"?>\n<tagger name="%s">\n<tagset>' % self.name]
        def item(l, t): return '<tags-item %stags="%s"/>' % ('lemma="%s" ' % l if l else "", t)
        for n, c, items in self.labels:
            o.append('<def-label name="%s"%s>%s</def-label>' % (n, ' closed="true"' if c else "", "".join(item(*i) for i in items)))
        for n, c, seqs in self.mults:
            o.append('<def-mult name="%s"%s>%s</def-mult>' % (n, ' closed="true"' if c else "", "".join(
                "<sequence>%s</sequence>" % "".join('<label-item label="%s"/>' % x[1] if x[0] == "l" else item(x[1], x[2]) for x in s) for s in seqs)))
        o.append("</tagset>")
        if self.forbid: o.append("<forbid>%s</forbid>" % "".join('<label-sequence><label-item label="%s"/><label-item label="%s"/></label-sequence>' % f for f in self.forbid))
        if self.enforce: o.append("<enforce-rules>%s</enforce-rules>" % "".join('<enforce-after label="%s"><label-set>%s</label-set></enforce-after>' % (a, "".join('<label-item label="%s"/>' % b for b in bs)) for a, bs in self.enforce))
        if self.prefer: o.append("<preferences>%s</preferences>" % "".join('<prefer tags="%s"/>' % p for p in self.prefer))
        if self.discard: o.append("<discard-on-ambiguity>%s</discard-on-ambiguity>" % "".join('<discard tags="%s"/>' % p for p in self.discard))
        return "\n".join(o) + "\n</tagger>\n"
    # ------------------------------------------------------------ meaning
    @staticmethod
    def rx(lemma, tags):
        l = "[^<]+" if not lemma else "".join("[^<]+" if c == "*" else re.escape(c) for c in lemma)
        t = "".join("(?:<[^>]+>)+" if x == "*" else re.escape("<%s>" % x) for x in tags.split("."))
        return l + t
    def compile(self):
        by = {n: [self.rx(*i) for i in items] for n, _, items in self.labels}
        self.pats = [(i, self.rx(None, t)) for i, (n, t) in enumerate(BUILTIN) if t]
        for n, _, items in self.labels: self.pats.append((self.index[n], "|".join(by[n])))
        for n, _, seqs in self.mults:
            alts = [r"\+".join("(?:%s)" % "|".join(by[x[1]]) if x[0] == "l" else self.rx(x[1], x[2]) for x in s) for s in seqs]
            self.pats.append((self.index[n], "|".join(alts)))
        self.pats = [(i, re.compile("(?:%s)" % p, re.S)) for i, p in self.pats]
        self.open = {self.index[n] for n, c, _ in self.labels + self.mults if not c}
        self.prefrx = [re.compile(self.tagrx(p)) for p in self.prefer]
        self.discrx = [re.compile(self.tagrx(p)) for p in self.discard]
    @staticmethod
    def tagrx(t):
        return "".join("(?:<[^>]+>)+" if x == "*" else re.escape("<%s>" % x) for x in t.split("."))
    def classify(self, s):
        """Coarse tag of a whole string, or None."""
        s = lower(s)
        for i, p in self.pats:
            if p.fullmatch(s): return i
        return None
    def parts(self, a):
        """Left-to-right longest-match split of an analysis: [(tag, text)], or
        None if some part has no coarse tag."""
        cuts = [m.start() for m in re.finditer(r"(?<=>)\+", a)] + [len(a)]
        out = []; b = 0
        while True:
            for e in reversed([c for c in cuts if c > b]):
                t = self.classify(a[b:e])
                if t is not None: break
            else: return None
            out.append((t, a[b:e]))
            if e == len(a): return out
            b = e + 1
    def word(self, analyses):
        """Trellis of a word: list of parts, each {tag: analysis text} after
        preferences and discards; None if the analyses cut differently."""
        ps = [self.parts(a) for a in analyses]
        if any(p is None for p in ps) or len({len(p) for p in ps}) != 1: return None
        res = []
        for k in range(len(ps[0])):
            d = {}
            for p in ps:
                t, a = p[k]
                if t not in d or any(x.search(a) for x in self.prefrx): d[t] = a
            for x in self.discrx:
                for t in sorted(d):
                    if len(d) > 1 and x.search(d[t]): del d[t]
            res.append(d)
        return res

def lower(s):
    return "".join(c if unicodedata.category(c) == "Lt" and False else (c.lower() if len(c.lower()) == 1 else c) for c in s)

class Lexicon:
    """surface -> analyses, all with a coarse tag under the definition."""
    def __init__(self, r, d, n=24, odd=.12, plus=.12, undef=False):
        self.d = d; self.words = {}
        def sf():
            w = "".join(r.choice(CHARS) if r.random() > odd else r.choice(ODDL) for _ in range(r.randint(1, 6)))
            if r.random() < .12: w = w.capitalize()
            if r.random() < .06: w = w.upper()
            if r.random() < odd * .5: w += r.choice(["\\^", "\\/", "\\@", "\\$", "\\[", "'s", " " + r.choice(CHARS), "-" + r.choice(CHARS)])
            if r.random() < odd * .2: w += r.choice(["😀", "𝔘"])
            return w
        def fine():
            p = r.choice(d.pos); sub = r.choice(FINE[p]); return p + ("." + sub if sub else "")
        def single(w):
            l = lower(w.replace("\\", "")) if r.random() < .5 else "".join(r.choice(CHARS) for _ in range(r.randint(1, 5)))
            if r.random() < .25 and d.lemmas: l = r.choice(d.lemmas).replace("*", r.choice("abc"))
            l = "".join("\\" + c if c in S.RESERVED else c for c in l)
            if r.random() < .1: l = l[:1].upper() + l[1:]
            return l + tagstr(fine())
        def multi(w): return "+".join(single(w) for _ in range(r.choice([2, 2, 3])))
        guard = 0
        while len(self.words) < n and guard < 40 * n:
            guard += 1
            w = sf()
            if w in self.words: continue
            k = r.choice([1, 1, 2, 2, 3, 4]); f = multi if r.random() < plus else single
            an = []
            for _ in range(k):
                a = f(w)
                if a not in an: an.append(a)
            if r.random() < .1 and f is single: an += [x for x in [an[0].split("<")[0] + tagstr(fine()) + "# q"] if 0]
            if d.word(an) is None: continue
            self.words[w] = an
        self.base = list(self.words)
        for w, t in PUNCT: self.words[w] = [w + "<%s>" % t]
        self.t = {w: d.word(a) for w, a in self.words.items()}
    def entry(self, w): return "^%s/%s$" % (w, "/".join(self.words[w]))
    def dictionary(self, r):
        ws = list(self.words); r.shuffle(ws)
        return "".join(self.entry(w) + "\n" for w in ws)
    def classes(self):
        return [frozenset(p) for t in self.t.values() for p in t]
    def sentence(self, r, n, unk=.06, amb=None):
        """List of ("w", surface) / ("u", surface)."""
        out = []
        for _ in range(n):
            if r.random() < unk: out.append(("u", "".join(r.choice(CHARS + "é") for _ in range(r.randint(1, 6))) + r.choice(["", "", "😀", "\\$"])))
            else:
                w = r.choice(self.base) if r.random() < .85 else r.choice([p[0] for p in PUNCT])
                out.append(("w", w))
        return out
    def unit(self, x):
        return self.entry(x[1]) if x[0] == "w" else "^%s/*%s$" % (x[1], x[1])
    def corpus(self, r, nsent, unk=.05, wordmax=9):
        o = []; sents = []
        for _ in range(nsent):
            s = self.sentence(r, r.randint(1, wordmax), unk) + [("w", ".")]
            sents.append(s); o.append(" ".join(self.unit(x) for x in s) + "\n")
        return "".join(o), sents

def blank(r):
    x = r.random()
    if x < .55: return " "
    if x < .62: return ""
    if x < .75: return "[%s]" % S.blank(r)
    if x < .82: return " [[%s]]" % S.wblank(r)
    return S.text(r) + ("[%s]" % S.blank(r) if r.random() < .2 else "")

# ------------------------------------------------------------ .prob files
class Reader:
    def __init__(self, b): self.b = b; self.i = 0
    def mb(self):
        c = self.b[self.i]; n = c >> 6; v = c & 0x3f
        if c < 0x40: v = c; k = 1
        elif c < 0x80: v = (c & 0x3f) << 8 | self.b[self.i + 1]; k = 2
        elif c < 0xC0: v = (c & 0x3f) << 16 | self.b[self.i + 1] << 8 | self.b[self.i + 2]; k = 3
        else: v = (c & 0x3f) << 24 | self.b[self.i + 1] << 16 | self.b[self.i + 2] << 8 | self.b[self.i + 3]; k = 4
        self.i += k; return v
    def st(self): return "".join(chr(self.mb()) for _ in range(self.mb()))
    def dbl(self):
        v = struct.unpack(">d", self.b[self.i:self.i + 8])[0]; self.i += 8; return v
    def eof(self): return self.i >= len(self.b)

class Head:
    """The part common to HMM and sliding-window models."""
    def __init__(self, rd):
        self.open = set(); v = 0
        for _ in range(rd.mb()): v += rd.mb(); self.open.add(v)
        self.forbid = [(rd.mb(), rd.mb()) for _ in range(rd.mb())]
        self.array = [rd.st() for _ in range(rd.mb())]
        self.index = {}
        for _ in range(rd.mb()):
            k = rd.st(); self.index[k] = rd.mb()
        self.enforce = []
        for _ in range(rd.mb()):
            a = rd.mb(); self.enforce.append((a, [rd.mb() for _ in range(rd.mb())]))
        self.prefer = [rd.st() for _ in range(rd.mb())]
        self.constants = {}
        for _ in range(rd.mb()):
            k = rd.st(); self.constants[k] = rd.mb()
        self.classes = [frozenset(rd.mb() for _ in range(rd.mb())) for _ in range(rd.mb())]
        self.N = rd.mb()

class Prob(Head):
    """An HMM model file."""
    def __init__(self, data):
        self.data = data; rd = Reader(data)
        Head.__init__(self, rd)
        self.M = rd.mb()
        self.aoff = rd.i
        self.A = [[rd.dbl() for _ in range(self.N)] for _ in range(self.N)]
        self.B = {}; self.boff = {}
        for _ in range(rd.mb()):
            i = rd.mb(); j = rd.mb(); self.boff[i, j] = rd.i; self.B[i, j] = rd.dbl()
        self.tail = rd.i
    def patch(self, A, B):
        b = bytearray(self.data)
        for i in range(self.N):
            for j in range(self.N): struct.pack_into(">d", b, self.aoff + 8 * (i * self.N + j), A[i][j])
        for k, v in B.items(): struct.pack_into(">d", b, self.boff[k], v)
        return Prob(bytes(b))
class ProbLSW(Head):
    """A sliding-window model file."""
    def __init__(self, data):
        self.data = data; rd = Reader(data)
        Head.__init__(self, rd)
        self.doff = rd.i; self.D = {}
        for _ in range(rd.mb()):
            k = (rd.mb(), rd.mb(), rd.mb()); self.D[k] = rd.dbl()
        self.tail = rd.i
    def patch(self, D):
        b = bytearray(self.data[:self.doff]); b += mbw(len(D))
        for k in sorted(D):
            for x in k: b += mbw(x)
            b += struct.pack(">d", D[k])
        return ProbLSW(bytes(b) + self.data[self.tail:])
def mbw(v):
    if v < 0x40: return bytes([v])
    if v < 0x4000: return bytes([0x40 | v >> 8, v & 255])
    if v < 0x400000: return bytes([0x80 | v >> 16, v >> 8 & 255, v & 255])
    return bytes([0xC0 | v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255])
ZERO = 1e-10

class Model:
    """A trained model on disk."""
    def __init__(self, kind, d, lex, path, text, opts):
        self.kind, self.d, self.lex, self.path, self.text, self.opts = kind, d, lex, path, text, opts
    def options(self, r):
        o = list(self.opts) + ["-g"]
        o += [x for x in ("-p", "-m") if r.random() < .3]
        if r.random() < .2 and self.kind != "lsw": o.append("-f")
        return o
    def stream(self, r, n=None):
        k = r.choice([0, 1, 3, 10, 30]) if n is None else n
        s = self.lex.sentence(r, k, .1)
        return "".join(blank(r) + self.lex.unit(x) for x in s) + blank(r)

def put(name, text):
    p = os.path.join(scratch(), name)
    with open(p, "w") as f: f.write(text)
    return p

def train_hmm(r, exe, d, lex, iters=None, corpus=None, supervised=False, c=None, name="m", lsw=False):
    """Train an HMM (or a sliding-window model); -> (Result, Model)."""
    text = d.xml(); dic = lex.dictionary(r)
    if corpus is None: corpus, _ = lex.corpus(r, r.randint(3, 30))
    tsx = put(name + ".tsx", text); dp = put(name + ".dic", dic); cp = put(name + ".crp", corpus); prob = os.path.join(scratch(), name + ".prob")
    if os.path.exists(prob): os.unlink(prob)
    it = r.choice([0, 0, 1, 2]) if iters is None else iters
    x = run([exe] + (["-w"] if lsw else []) + ["-t", it, dp, cp, tsx, prob])
    return x, Model("lsw" if lsw else "hmm", d, lex, prob, text, ["-w"] if lsw else [])

KINDS = ["hmm", "lsw", "unigram1", "unigram2", "unigram3"]
def model(r, exe, kind, c=None, plus=.12):
    d = TagDef(r); lex = Lexicon(r, d, plus=plus)
    if kind in ("hmm", "lsw"):
        x, m = train_hmm(r, exe, d, lex, lsw=kind == "lsw")
    else:
        _, sents = lex.corpus(r, r.choice([1, 5, 40]), unk=0)
        text = "".join(" ".join("^%s/%s$" % (w, r.choice(lex.words[w])) for _, w in s) + "\n" for s in sents)
        path = os.path.join(scratch(), "u.model"); o = ["-u", kind[-1]]
        x = run([exe] + o + ["-s", 0, path, put("u.tagged", text)])
        m = Model(kind, d, lex, path, text, o)
    if x.san or x.rc: raise core.Inconclusive("training failed: " + x.err.decode("utf8", "replace")[-300:])
    return m
