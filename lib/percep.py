"""Perceptron tagger: generated feature specifications with their meaning
(a Python interpreter over the expression tree), streams, the reference beam
search, and a reader/writer for the weights of a model file."""
import os, re, struct
import tag, core
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr as Q

UT = [(b"!UNTAGGED!", [b"!UT!"])]
TUF = ("!SURF_UNDERFLOW!", [[(b"!TOK_UNDERFLOW!", [b"!TUF!"])]])
TOF = ("!SURF_OVERFLOW!", [[(b"!TOK_OVERFLOW!", [b"!TOF!"])]])
clamp = lambda lo, hi, x: min(max(x, lo), hi)

class Kill(Exception): pass
class Ctx:
    def __init__(self, spec, T, U, tok, wrd):
        self.spec, self.T, self.U, self.tok, self.wrd = spec, T, U, tok, wrd
        self.vars = {}; self.args = {}; self.keys = None
def wrds(t): return UT if t is None else t
def token(c, i): return TUF if i < 0 else TOF if i >= len(c.U) else c.U[i]
def wordoid(c, a):
    t, w = a
    if t < 0: return TUF[1][0][0]
    if t >= len(c.T): return TOF[1][0][0]
    ws = wrds(c.T[t])
    return TUF[1][0][0] if w < 0 else TOF[1][0][0] if w >= len(ws) else ws[w]
def adjust(c, a):
    t, w = a; n = len(c.T)
    if 0 <= t < n:
        while w < 0 and t > 0: t -= 1; w += len(wrds(c.T[t]))
        while w >= len(wrds(c.T[t])) and t < n - 1: w -= len(wrds(c.T[t])); t += 1
    return t, w
def clampaddr(c, a):
    t = clamp(0, len(c.T) - 1, a[0]); return t, clamp(0, len(wrds(c.T[t])) - 1, a[1])
# The virtual machine's recorded findings (known_findings.jsonl, percep-*) are
# probed on their own; what would run into them is not generated, see safe().
class Defect(Exception): pass
def slice_(v, b, e):
    n = len(v)
    if b < 0: b += n
    if e <= 0: e += n
    e = clamp(0, n, e); b = max(0, b)
    if not n or b > min(e, n - 1): raise Defect("slice")
    return v[b:e]
def sub(v, i, empty):
    if not v or i < 0: raise Defect("subscript")
    return v[clamp(0, len(v) - 1, i)]
def join(v, l):
    if len(l) > 1 and not l[0]: raise Defect("join")
    return v.join(l)
def safe(xml, dynamic):
    """Whether the specification keeps clear of the recorded findings: for
    every input, or (dynamic) up to what the interpreter raises Defect for."""
    root = ET.fromstring(xml.encode())
    macros = {}
    class Bad(Exception): pass
    def need(x):
        if not x: raise Bad
    def ev(e, env, glob):
        """(value is never empty, its elements never are)"""
        t = e.tag; dyn = dynamic and not glob
        if t == "var": return env.get(e.get("name"), (False, False))
        if t == "for-each":
            need(glob is not None and len(e) == 2)
            n, el = ev(e[0], env, glob); need(n or dyn)
            words = e[0].tag == "ex-wordoids"
            b = ev(e[1], dict(env, **{e.get("as"): (True, True) if words else (el, False)}), glob)
            return n, b[0]
        if t == "macro":
            for c in e: ev(c, {}, "macro")
            return macros[e.get("name")]
        if t in ("and", "or"): need(len(e) == 1)
        if t in ("lt", "lte", "gt", "gte"): need(ET.tostring(e[0]) == ET.tostring(e[1]))
        if t == "inst":
            op = e.get("opcode").lower(); need(op not in ("filterin", "lt") and not (op == "subscript" and int(e.get("val")) < 0))
        c = [ev(x, env, glob) for x in e]; n, el = c[0] if c else (False, False)
        if t in ("ex-surf", "ex-lemma", "ex-coarse"): return True, False
        if t in ("ex-tags", "ex-wordoids"): return True, True
        if t == "ex-ambgset": return False, True
        if t == "slice":
            b, x = int(e.get("start", 0)), int(e.get("end", 0))
            need(dyn or n and (b == 0 or b < 0 and x <= 0 and (x == 0 or b <= x)))
            return n and x == 0 and b <= 0 or n and b == 0 and x > 0, el
        if t == "subscript": need(int(e.get("idx")) >= 0 and (dyn or n)); return el, False
        if t == "join": need(el or dyn); return n and el, False
        return False, False
    try:
        for m in root.iter("def-macro"): macros[m.get("as")] = ev(m[0], {}, "macro")
        g = root.find("global-pred")
        if g is not None:
            need(g.find(".//macro") is None)
            ev(g[0], {}, "")
        for f in root.iter("feat"):
            for v in f:
                need(v.tag != "for-each")
                ev(v, {}, "")
    except Bad: return False
    return True
EMPTYW = (b"", [])

LONG = ["abcabcabcabca", "abcabcabcabcb"]
class Spec:
    STR = ["n", "m", "sg", "pri", "p3", "a", "b", "an", "SENT", "é", "ca", LONG[0]]
    def __init__(self, r, d=None, simple=False, dynamic=False):
        self.r, self.d, self.dynamic = r, d, dynamic
        self.sets = {}; self.strs = {}; self.macros = []; self.xmlns = 0; self.used = {}
        self.beam = r.choice([None, None, 1, 2, 3, 8, 40])
        self.nv = 0; self.cov = set()
        r_ = r.random
        defs = []
        for k in range(r.choice([0, 1, 2])):
            v = [r.choice(self.STR) for _ in range(r.choice([1, 2, 4]))]; self.sets["set%d" % k] = {x.encode() for x in v}
            defs.append('<def-set name="set%d">%s</def-set>' % (k, "".join('<set-member %s=%s/>' % (r.choice(["tag", "str"]), Q(x)) for x in v)))
        for k in range(r.choice([0, 1, 2])):
            v = r.choice(self.STR); self.strs["str%d" % k] = v.encode()
            defs.append('<def-str name="str%d" %s=%s/>' % (k, r.choice(["tag", "str"]), Q(v)))
        for k in range(0 if simple else r.choice([0, 0, 1, 2, 3])):
            m = self.macro(k); defs.append(m)
        self.feats = []; fx = []
        for k in range(r.choice([1, 2, 4])):
            self.env = []; self.argenv = None
            vs = [self.V(r.choice([0, 1, 2, 3])) for _ in range(r.choice([1, 1, 2, 3]))]
            self.feats.append([v[1] for v in vs]); fx.append("<feat>%s</feat>" % "".join(v[0] for v in vs))
        # the words of a stretch of the path: what a wider beam is for
        self.history = 0 if simple or r_() > .3 else r.choice([2, 3, 4])
        if self.history:
            def lem(k):
                def f(c):
                    for q in c.keys: q.append(wordoid(c, (c.tok - k, c.wrd))[0])
                return f
            self.feats.append([lem(k) for k in range(self.history)])
            fx.append("<feat>%s</feat>" % "".join('<out><ex-lemma><ex-wordoid><add><wrdaddr/><addr-of-ints><int val="%d"/><int val="0"/></addr-of-ints></add></ex-wordoid></ex-lemma></out>' % -k for k in range(self.history)))
            if r_() < .8: self.beam = r.choice([2, 3, 4, 5, 6])
        # a condition on the word for it to have features at all; without macros
        # (percep-predmacro)
        self.gp = None; gx = ""
        if r_() < .25:
            save = self.macros; self.macros = []; self.env = []; self.argenv = None
            a = self.B(r.choice([1, 1, 2])); self.macros = save
            if r_() < .4: a = ("<not>%s</not>" % a[0], lambda c, f=a[1]: not f(c))
            self.gp = a[1]; gx = "<global-pred>%s</global-pred>" % a[0]; self.cov.add("global-pred")
        self.xml = '<?xml version="1.0" encoding="UTF-8"?>\n<metatag>\n%s%s%s\n%s\n<feats>\n%s\n</feats>\n</metatag>\n' % (
            '<coarse-tags tag="p.tsx"/>' if d else "", '<beam-width val="%d"/>' % self.beam if self.beam else "",
            "<defns>\n%s\n</defns>" % "\n".join(defs) if defs or r_() < .3 else "", gx, "\n".join(fx))
        self.beam = self.beam or 4
        self.cache = {}
    # ------------------------------------------------------- expressions
    def pick(self, leaf, node, d):
        r = self.r
        return r.choice(node if d > 0 and node and (r.random() < .75 or not leaf) else leaf)
    def val(self, b):
        """Attribute for a string constant, and its value."""
        r = self.r
        if self.strs and r.random() < .4:
            k = r.choice(list(self.strs)); return 'name="%s"' % k, self.strs[k]
        v = r.choice(self.STR + b); return "val=%s" % Q(v), v.encode()
    def setv(self):
        r = self.r
        if self.sets and r.random() < .5:
            k = r.choice(list(self.sets)); return 'name="%s"' % k, self.sets[k]
        v = [r.choice(self.STR + [str(self.r.randint(0, 3))]) for _ in range(r.choice([1, 2, 4]))]; return "val=%s" % Q(" ".join(v)), {x.encode() for x in v}
    def extra(self, t):
        """Variables, arguments and macros of type t."""
        o = []
        o += [("var", n) for n, ty in self.env if ty == t]
        if self.argenv is not None:
            if not self.inloop: o += [("arg", n) for n, ty in self.argenv.items() if ty in (None, t)]
        else:
            o += [("macro", m) for m in self.macros if m["type"] == t]
        return o
    def ext(self, k, t, d):
        what, x = k
        self.cov.add(what)
        if what == "var": return '<var name="%s"/>' % x, lambda c: c.vars[x], 2
        if what == "arg":
            self.argenv[x] = t; self.argsize += 8
            return '<var name="%s"/>' % x, lambda c: c.args[x](c), 8
        m = x; xs = []; fs = {}
        save = self.env; self.env = [];
        for n, ty in m["args"].items():
            a = getattr(self, ty)(max(0, min(d - 1, 1))); xs.append(a[0]); fs[n] = a[1]
        self.env = save
        if fs: self.cov.add("macro-args")
        def f(c):
            c2 = Ctx(c.spec, c.T, c.U, c.tok, c.wrd)
            # an argument is evaluated where it is used
            c2.args = {n: (lambda _, g=g: g(Ctx(c.spec, c.T, c.U, c.tok, c.wrd))) for n, g in fs.items()}
            return m["f"](c2)
        return '<macro name="%s">%s</macro>' % (m["name"], "".join(xs)), f, 2
    def choose(self, t, leaf, node, d, top=False):
        e = self.extra(t)
        if e and not top and self.r.random() < .45: return self.r.choice(e)
        k = self.pick(leaf, node, d)
        self.cov.add(t + ":" + k)
        return k
    def I(self, d, top=False):
        r = self.r
        k = self.choose("I", ["sentlen", "tokaddr", "wrdidx", "int", "int"], ["add", "add", "strlen", "arrlen", "toklen"], d, top)
        if isinstance(k, tuple): return self.ext(k, "I", d)
        if k == "sentlen": return "<sentlen/>", lambda c: len(c.U), 1
        if k == "tokaddr": return "<tokaddr/>", lambda c: c.tok, 1
        if k == "wrdidx": return "<wrdidx/>", lambda c: c.wrd, 1
        if k == "int":
            v = r.choice([-3, -2, -1, -1, 0, 1, 1, 2, 5]); return '<int val="%d"/>' % v, lambda c: v, 2
        if k == "add":
            a = self.I(d - 1); b = self.I(d - 1); return "<add>%s%s</add>" % (a[0], b[0]), lambda c: a[1](c) + b[1](c), a[2] + b[2] + 1
        if k == "toklen": return "<toklen><tokaddr/></toklen>", lambda c: len(wrds(c.T[c.tok])), 2
        a = (self.S if k == "strlen" else self.SA)(d - 1)
        return "<%s>%s</%s>" % (k, a[0], k), lambda c: len(a[1](c)), a[2] + 1
    def B(self, d, top=False):
        r = self.r
        k = self.choose("B", [], ["and", "or", "not", "eq", "neq", "lt", "lte", "gt", "gte", "streq", "streq", "strin", "sethasany", "sethasall"] if d > 1 else ["eq", "lt", "gt", "lte", "gte", "streq", "strin", "sethasany", "sethasall"], max(d, 1), top)
        if isinstance(k, tuple): return self.ext(k, "B", d)
        if k in ("and", "or"):
            xs = [self.B(d - 1) for _ in range(1)]; g = all if k == "and" else any
            return "<%s>%s</%s>" % (k, "".join(x[0] for x in xs), k), lambda c: g([x[1](c) for x in xs]), sum(x[2] for x in xs) + len(xs)
        if k == "not":
            a = self.B(d - 1); return "<not>%s</not>" % a[0], lambda c: not a[1](c), a[2] + 1
        if k in ("eq", "neq", "lt", "lte", "gt", "gte"):
            a = b = self.I(d - 1)
            if k in ("eq", "neq"): b = self.I(d - 1)
            import operator
            g = {"eq": operator.eq, "neq": operator.ne, "lt": operator.lt, "lte": operator.le, "gt": operator.gt, "gte": operator.ge}[k]
            return "<%s>%s%s</%s>" % (k, a[0], b[0], k), lambda c: g(a[1](c), b[1](c)), a[2] + b[2] + 1
        if k == "streq":
            at, v = self.val([]); a = self.S(d - 1); return "<streq %s>%s</streq>" % (at, a[0]), lambda c: a[1](c) == v, a[2] + 2
        at, v = self.setv()
        a = (self.S if k == "strin" else self.SA)(d - 1)
        g = {"strin": lambda x: x in v, "sethasany": lambda x: any(y in v for y in x), "sethasall": lambda x: all(y in v for y in x)}[k]
        return "<%s %s>%s</%s>" % (k, at, a[0], k), lambda c: g(a[1](c)), a[2] + 2
    def lim(self):
        r = self.r; o = ""; b = e = 0
        if r.random() < .7: b = r.choice([0, 1, 2, -1, -2] if self.dynamic else [0, -1, -2, -3, -5]); o += ' start="%d"' % b
        if r.random() < .6: e = r.choice([1, 1, 2, 3, -1, -2, 7, 0] if b == 0 or self.dynamic else [-1, -2, 0]); o += ' end="%d"' % e
        return o, b, e
    def S(self, d, top=False):
        r = self.r
        k = self.choose("S", ["ex-surf", "ex-lemma"] + ["ex-coarse"] * 2 * bool(self.d), ["ex-surf", "ex-lemma", "join", "slice", "subscript"] + ["ex-coarse"] * bool(self.d), d, top)
        if isinstance(k, tuple): return self.ext(k, "S", d)
        if k == "ex-surf":
            a = self.I(max(d - 1, 1)); return "<ex-surf>%s</ex-surf>" % a[0], lambda c: token(c, a[1](c))[0].encode(), a[2] + 1
        if k == "ex-lemma":
            a = self.W(max(d - 1, 0)); return "<ex-lemma>%s</ex-lemma>" % a[0], lambda c: a[1](c)[0], a[2] + 1
        if k == "ex-coarse":
            a = self.W(max(d - 1, 0)); return "<ex-coarse>%s</ex-coarse>" % a[0], lambda c: c.spec.coarse(a[1](c)), a[2] + 1
        if k == "join":
            at, v = ("", b".") if r.random() < .4 else self.val(["+", "-"])
            a = self.SA(d - 1); return "<join %s>%s</join>" % (at, a[0]), lambda c: join(v, a[1](c)), a[2] + 2
        if k == "slice":
            at, b, e = self.lim(); a = self.S(d - 1); return "<slice%s>%s</slice>" % (at, a[0]), lambda c: slice_(a[1](c), b, e), a[2] + 3
        i = r.choice([0, 0, 1, 2, 3]); a = self.SA(d - 1)
        return '<subscript idx="%d">%s</subscript>' % (i, a[0]), lambda c: sub(a[1](c), i, b""), a[2] + 2
    def loop(self, d, body):
        """for-each with a body of type S, W or V."""
        r = self.r
        over = "SA" if r.random() < .6 else "WA"
        if over == "SA": a = self.SA(max(d - 1, 0), top=False); ty = "S"
        else: i = self.I(max(d - 1, 1)); a = ("<ex-wordoids>%s</ex-wordoids>" % i[0], lambda c: wrds_at(c, i[1](c)), i[2] + 1); ty = "W"
        name = "v%d" % r.randrange(4)
        if any(n == name for n, _ in self.env): name = "w%d" % self.nv; self.nv += 1
        save = self.env, self.inloop; self.env = self.env + [(name, ty)]; self.inloop = True
        b = getattr(self, body)(max(d - 1, 0))
        self.env, self.inloop = save
        if b[2] > 110: raise TooBig
        def f(c):
            out = []
            for v in a[1](c): c.vars[name] = v; out.append(b[1](c))
            if not out: raise Defect("for-each")
            return out
        self.cov.add("for-each-%s-%s" % (body, ty))
        return '<for-each as="%s">%s%s</for-each>' % (name, a[0], b[0]), f, a[2] + b[2] + 6
    inloop = False; argsize = 0
    def SA(self, d, top=False):
        k = self.choose("SA", ["ex-tags"] + ["ex-ambgset"] * bool(self.d), ["ex-tags", "for-each"] + (["slice"] if not top else []) + ["ex-ambgset"] * bool(self.d), d, top)
        if isinstance(k, tuple): return self.ext(k, "SA", d)
        if k == "ex-tags":
            a = self.W(max(d - 1, 0)); return "<ex-tags>%s</ex-tags>" % a[0], lambda c: list(a[1](c)[1]), a[2] + 1
        if k == "ex-ambgset":
            a = self.I(max(d - 1, 1)); return "<ex-ambgset>%s</ex-ambgset>" % a[0], lambda c: [b"+".join(c.spec.coarse(w) for w in an) for an in token(c, a[1](c))[1]], a[2] + 1
        if k == "for-each": return self.loop(d, "S")
        at, b, e = self.lim(); a = self.SA(d - 1); return "<slice%s>%s</slice>" % (at, a[0]), lambda c: slice_(a[1](c), b, e), a[2] + 3
    def WA(self, d, top=False):
        k = self.choose("WA", ["ex-wordoids"], ["ex-wordoids", "slice", "for-each"], d, top)
        if isinstance(k, tuple): return self.ext(k, "WA", d)
        if k == "ex-wordoids":
            i = self.I(max(d - 1, 1)); return "<ex-wordoids>%s</ex-wordoids>" % i[0], lambda c: wrds_at(c, i[1](c)), i[2] + 1
        if k == "for-each": return self.loop(d, "W")
        at, b, e = self.lim(); a = self.WA(d - 1); return "<slice%s>%s</slice>" % (at, a[0]), lambda c: slice_(a[1](c), b, e), a[2] + 3
    def W(self, d, top=False):
        k = self.choose("W", ["ex-wordoid"], ["ex-wordoid", "ex-wordoid", "subscript"], d, top)
        if isinstance(k, tuple): return self.ext(k, "W", d)
        if k == "ex-wordoid":
            a = self.A(d - 1); return "<ex-wordoid>%s</ex-wordoid>" % a[0], lambda c: wordoid(c, a[1](c)), a[2] + 1
        i = self.r.choice([0, 0, 1, 2]); a = self.WA(d - 1)
        return '<subscript idx="%d">%s</subscript>' % (i, a[0]), lambda c: sub(a[1](c), i, EMPTYW), a[2] + 2
    def A(self, d):
        k = self.choose("A", ["wrdaddr", "wrdaddr", "off"], ["addr-of-ints", "add", "adjust", "clamp"], d)
        if isinstance(k, tuple): return self.ext(k, "A", d)
        if k == "wrdaddr": return "<wrdaddr/>", lambda c: (c.tok, c.wrd), 1
        if k == "off":
            i, j = self.r.choice([-2, -1, -1, 0, 1]), self.r.choice([-1, 0, 0, 1])
            far = self.r.random() < .4
            if far and self.r.random() < .6: j = self.r.choice([-4, -3, -2, 2, 3, 4])
            x, f, n = "<add><wrdaddr/><addr-of-ints><int val=\"%d\"/><int val=\"%d\"/></addr-of-ints></add>" % (i, j), lambda c: (c.tok + i, c.wrd + j), 6
            if far: return "<adjust>%s</adjust>" % x, lambda c: adjust(c, f(c)), 7
            return x, f, n
        if k == "addr-of-ints":
            a = self.I(d - 1); b = self.I(d - 1); return "<addr-of-ints>%s%s</addr-of-ints>" % (a[0], b[0]), lambda c: (a[1](c), b[1](c)), a[2] + b[2]
        a = self.A(d - 1)
        if k == "add":
            b = self.A(d - 1)
            def f(c): x = a[1](c); y = b[1](c); return x[0] + y[0], x[1] + y[1]
            return "<add>%s%s</add>" % (a[0], b[0]), f, a[2] + b[2] + 1
        g = adjust if k == "adjust" else clampaddr
        return "<%s>%s</%s>" % (k, a[0], k), lambda c: g(c, a[1](c)), a[2] + 1
    # ------------------------------------------------------- statements
    def V(self, d):
        r = self.r
        k = r.choice(["out"] * 5 + ["out-many"] * 2 + ["pred"] * 2 + (["inst"] if not self.env else []))
        self.cov.add("V:" + k)
        if k == "out":
            t = r.choice(["S", "S", "S", "I", "B"])
            # integer and boolean variables and macros are not told from strings here
            a = getattr(self, t)(max(d - 1, 0), top=t != "S")
            enc = {"S": lambda v: v, "I": lambda v: b"%d" % v, "B": lambda v: b"t" if v else b"f"}[t]
            def f(c):
                v = enc(a[1](c))
                for q in c.keys: q.append(v)
            return "<out>%s</out>" % a[0], f, a[2] + 1
        if k == "out-many":
            a = self.SA(max(d - 1, 0)); return "<out-many>%s</out-many>" % a[0], lambda c: many(c, a[1](c)), a[2] + 1
        if k == "pred":
            a = self.B(max(d - 1, 1))
            def f(c):
                if not a[1](c): raise Kill
            return "<pred>%s</pred>" % a[0], f, a[2] + 1
        x, f = self.inst(); return x, f, 30
    def inst(self):
        r = self.r
        sa, sv = self.setv(); ta, tv = self.val([])
        n = r.choice([-2, -1, 1, 2])
        def app(c, v):
            for q in c.keys: q.append(v)
        B = lambda v: b"t" if v else b"f"
        surf = lambda c, i=0: token(c, c.tok + i)[0].encode()
        while not sv or "name=" in sa and not self.sets: sa, sv = self.setv()
        def die(v):
            if not v: raise Kill
        def vaddr(c, a): return 0 <= a[0] < len(c.T) and 0 <= a[1] < len(wrds(c.T[a[0]]))
        k, prog, f = r.choice([
            ("lower", ["pushtokaddr", "extoksurf", "lower", "fcatstr"], lambda c: app(c, tag.lower(surf(c).decode()).encode())),
            ("hassubstr", ["pushtokaddr", 'adi val="%d"' % n, "extoksurf", "hassubstr " + ta, "fcatbool"], lambda c: app(c, B(tv in surf(c, n)))),
            ("isvalidtokaddr", ["pushtokaddr", 'adi val="%d"' % n, "isvalidtokaddr", "not", "fcatbool"], lambda c: app(c, B(not 0 <= c.tok + n < len(c.U)))),
            ("isvalidtaggedtokaddr", ["pushtokaddr", 'adi val="%d"' % n, "isvalidtaggedtokaddr", "fcatbool"], lambda c: app(c, B(0 <= c.tok + n < len(c.T)))),
            ("isvalidaddr", ["pushaddr", 'adi val="%d"' % n, "isvalidaddr", "dieiffalse"], lambda c: die(vaddr(c, (c.tok, c.wrd + n)))),
            ("sentlentaggedtok", ["sentlentaggedtok", "fcatint"], lambda c: app(c, b"%d" % len(c.T))),
            ("clamptokaddr", ["pushtokaddr", 'adi val="%d"' % n, "clamptokaddr", "fcatint"], lambda c: app(c, b"%d" % clamp(0, len(c.U) - 1, c.tok + n))),
            ("clamptaggedtokaddr", ["pushtokaddr", 'adi val="%d"' % n, "clamptaggedtokaddr", "fcatint"], lambda c: app(c, b"%d" % clamp(0, len(c.T) - 1, c.tok + n))),
            ("dup", ["pushwrdaddr", "dup", "add", "fcatint"], lambda c: app(c, b"%d" % (2 * c.wrd))),
            ("dup2", ["pushaddr", "dup2", "add2", "fcatint", "fcatint"], lambda c: (app(c, b"%d" % (2 * c.wrd)), app(c, b"%d" % (2 * c.tok)))),
            ("pushint", ['pushint val="%d"' % n, "pushwrdaddr", r.choice(["eq"]), "fcatbool"], lambda c: app(c, B(n == c.wrd))),
            ("gte", ["pushtokaddr", "dup", "gte", "fcatbool"], lambda c: app(c, B(True))),
            ("streq", ["pushaddr", "getwrd", "exwrdlemma", "streq " + ta, "dieiffalse"], lambda c: die(wordoid(c, (c.tok, c.wrd))[0] == tv)),
            ("subscript", ["pushaddr", "getwrd", "extags", 'subscript val="%d"' % abs(n), "fcatstr"], lambda c: app(c, sub(wordoid(c, (c.tok, c.wrd))[1], abs(n), b""))),
        ])
        self.cov.add("inst:" + k)
        o = []
        for p in prog:
            op, _, at = p.partition(" "); o.append('<inst opcode="%s" %s/>' % (r.choice([op, op.upper()]), at))
        return "".join(o), f
    def macro(self, k):
        r = self.r
        self.env = []; self.argenv = {"a%d" % i: None for i in range(r.choice([0, 0, 1, 2, 2]))}
        t = r.choice(["I", "B", "S", "S", "SA", "WA", "W", "W"])
        for _ in range(30):
            args = dict(self.argenv)
            a = getattr(self, t)(r.choice([1, 2, 3]), top=True)
            # the kind of a slice or subscript is the first one that is tried
            ok = not (t == "W" and a[0].startswith("<subscript")) and not (t == "WA" and (a[0].startswith("<slice") or a[0].startswith("<for-each"))) and not (t == "SA" and a[0].startswith("<slice"))
            if ok: break
            self.argenv = {n: None for n in args}
        else: a = ("<tokaddr/>", lambda c: c.tok, 1); t = "I"; self.argenv = {}
        args = {n: ty for n, ty in self.argenv.items() if ty}
        name = "m%d" % k
        self.argenv = None
        self.macros.append({"name": name, "type": t, "f": a[1], "args": args})
        return '<def-macro as="%s"%s>%s</def-macro>' % (name, ' args="%s"' % " ".join(args) if args else "", a[0])
    # ------------------------------------------------------- meaning
    def coarse(self, w):
        k = w[0], tuple(w[1])
        if k not in self.cache:
            t = self.d.classify(w[0].decode() + "".join("<%s>" % x.decode() for x in w[1]))
            self.cache[k] = ('TAG_kUNDEF' if t is None else self.d.names[t] if t >= len(tag.BUILTIN) else 'TAG_' + self.d.names[t]).encode()
        return self.cache[k]
    def features(self, T, U, tok, wrd):
        """List of keys (tuples; the first item is the feature's number)."""
        out = []
        if self.gp and not self.gp(Ctx(self, T, U, tok, wrd)): return out
        for i, vs in enumerate(self.feats):
            c = Ctx(self, T, U, tok, wrd); c.keys = [[bytes([i])]]
            try:
                for f in vs: f(c)
            except Kill: continue
            out += [tuple(k) for k in c.keys]
        return out
class TooBig(Exception): pass
def wrds_at(c, i): return TUF[1][0] if i < 0 else TOF[1][0] if i >= len(c.T) else wrds(c.T[i])
def many(c, v):
    if not v: raise Kill
    if len(v) * len(c.keys) > 1000: raise core.Inconclusive("too many features")
    c.keys = [k + [x] for x in v for k in c.keys]
def spec(r, d=None, **kw):
    for _ in range(400):
        try:
            s = Spec(r, d, **kw)
            if len(s.xml) < 6000 and safe(s.xml, s.dynamic): return s
        except TooBig: pass
    raise core.Inconclusive("specification too big")

# ---------------------------------------------------------------- streams
class Lex:
    ODD = ["zz1", "é", "n.x", "KEY:x", "m", "p3"]
    def __init__(self, r, d=None, n=14, plus=.2):
        self.words = {}
        pos = d.pos if d else r.sample(list(tag.FINE), 5)
        def fine():
            if r.random() < .1: return [r.choice(self.ODD) for _ in range(r.randint(1, 3))]
            p = r.choice(pos); return [p] + [x for x in r.choice(tag.FINE[p]).split(".") if x]
        def one():
            # a word with fewer or other tags than one there is
            if self.words and r.random() < .1:
                x = r.choice(self.words[r.choice(list(self.words))]).split("+")[0].split("<")
                if len(x) > 2: return "<".join(x[:-1]) if r.random() < .6 else x[0] + "".join("<%s>" % t for t in fine())
            l = "".join(r.choice("abcdno" if r.random() < .9 else tag.ODDL) for _ in range(r.randint(1, 4)))
            if r.random() < .05: l = r.choice(LONG)
            if r.random() < .1: l = l.capitalize()
            if d and d.lemmas and r.random() < .2: l = r.choice(d.lemmas).replace("*", "b")
            return l + "".join("<%s>" % t for t in fine())
        while len(self.words) < n:
            w = "".join(r.choice("abcdno" if r.random() < .85 else tag.ODDL) for _ in range(r.randint(1, 5)))
            if r.random() < .15: w = w.capitalize()
            if r.random() < .06: w += r.choice([" b", "-x", "\\$", "\\/", "'s"])
            an = []
            for _ in range(r.choice([1, 1, 2, 2, 2, 3, 4])):
                a = "+".join(one() for _ in range(r.choice([2, 2, 3]) if r.random() < plus else 1))
                if a not in an: an.append(a)
            self.words[w] = an
    def sentence(self, r, n=None, unk=.08):
        """[(surface, [analysis text])] with a final full stop."""
        o = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8]) if n is None else n):
            if r.random() < unk: o.append(("".join(r.choice("abcé") for _ in range(3)), []))
            else: w = r.choice(list(self.words)); o.append((w, self.words[w]))
        return o + [(".", [".<sent>"])]
def unit(w): return "^%s/%s$" % (w[0], "/".join(w[1]) or "*" + w[0])
def parse(a):
    """analysis text -> [(lemma, [tags])]"""
    return [(p.split("<")[0].encode(), [t.encode() for t in re.findall("<([^>]*)>", p)]) for p in re.split(r"(?<=>)\+", a)]
def U_(s): return [(w, [parse(a) for a in an]) for w, an in s]

# ---------------------------------------------------------------- models
def be(v):
    b = v.to_bytes(max(1, (v.bit_length() + 7) // 8), "big"); return bytes([len(b)]) + b
def wstr(s): return be(len(s)) + b"".join(be(x) for x in s)
def wmap(w):
    o = [be(len(w))]
    for k in sorted(w, key=list): o.append(be(len(k)) + b"".join(wstr(s) for s in k) + be(struct.unpack(">Q", struct.pack(">d", w[k]))[0]))
    return b"".join(o)
EMPTY = be(0)
def rmap(b):
    i = 0
    def num():
        nonlocal i
        n = b[i]; v = int.from_bytes(b[i + 1:i + 1 + n], "big"); i += 1 + n; return v
    o = {}
    for _ in range(num()):
        k = tuple(bytes(num() for _ in range(num())) for _ in range(num()))
        o[k] = struct.unpack(">d", struct.pack(">Q", num()))[0]
    if i != len(b): raise ValueError("bytes after the weights")
    return o

EPS = 1e-9
class Tie(Exception): pass
def beam(spec, w, s):
    """Best analyses of a sentence by the beam search; None for unknown words.
    Raises Tie when scores are too close to call."""
    U = U_(s); agenda = [(0.0, [])]
    for i, (sf, an) in enumerate(U):
        if len(an) < 2:
            agenda = [(sc, T + [an[0] if an else None]) for sc, T in agenda]; continue
        new = []
        for sc, T in agenda:
            for a in an:
                T2 = T + [a]; x = sc
                for j in range(len(a)): x += sum(w.get(k, 0.0) for k in spec.features(T2, U, i, j))
                new.append((x, T2))
        new.sort(key=lambda x: -x[0])
        if len(new) > spec.beam and abs(new[spec.beam - 1][0] - new[spec.beam][0]) < EPS: raise Tie
        agenda = new[:spec.beam]
    if len(agenda) > 1:
        top = [a for a in agenda if agenda[0][0] - a[0] < EPS]
        if len({repr(a[1]) for a in top}) > 1: raise Tie
    return agenda
