"""Format specifications: a generator, their meaning (a lexer over the same
rules), and building the deformatter and reformatter they describe."""
import hashlib, os, re, shutil, subprocess, sys
import build as B
from xml.sax.saxutils import quoteattr

PAIR = [("<", ">"), ("{", "}"), ("%", "%"), ("«", "»"), ("|", "|"), ("§", "¶"), ("日", "語"), ("\\", ";"), ("#", "!"), ("~", "~")]
NAMES = ["p", "x", "bold", "fn", "ref", "Par", "h1", "é"]
def fq(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
def py(s): return re.escape(s.encode("utf8"))
class Pat:
    """A pattern in flex syntax, as a bytes regexp, and examples."""
    def __init__(s, flex, rx, gen): s.flex, s.rx, s.gen = flex, rx, gen
def lit(t): return Pat(fq(t), py(t), lambda r: t)
def attrs(o, n, c):
    if len(c.encode()) > 1: return lit(o + n + c)
    k = "^" + ("\\" if c in "\\]^-" else "") + c
    body = (k.encode() if c not in "\\]^-" else b"^\\" + c.encode())
    return Pat("%s(%s[%s]*)?%s" % (fq(o + n), fq(" "), k, fq(c)), py(o + n) + b"(?: [" + body + b"]*)?" + py(c),
               lambda r: o + n + (" " + "".join(r.choice(["a", "é", "=", "[", "]", "\\", "/", " ", "\n", "^", "$", "@", "日", "😀", "1"]) for _ in range(r.randint(0, 6))).replace(c, "") if r.random() < .6 else "") + c)
def word(o): return Pat(fq(o) + "[a-z0-9]+", py(o) + b"[a-z0-9]+", lambda r: o + "".join(r.choice("abz019") for _ in range(r.randint(1, 4))))
def any_of(ls):
    ls = sorted(ls, key=lambda x: -len(x.encode()))
    return Pat("(" + "|".join(map(fq, ls)) + ")", b"(?:" + b"|".join(map(py, ls)) + b")", lambda r: r.choice(ls))

class Spec: pass
def spec(r, i):
    s = Spec(); s.name = "fmt%d" % i; s.opt = r.random() < .3; s.cs = r.random() < .5; s.size = r.choice([8, 30, 200, 8192, 8192])
    esc, sp = "][^@\\/$", " \n\t\r"
    text = []
    for ch in "<>{}": esc, sp = (esc + ch, sp) if r.random() < .6 else (esc, sp + ch)
    for ch in "~*#":
        x = r.random()
        if x < .3: sp += ch
        elif x < .5: esc += ch
        else: text.append(ch)
    s.esc, s.sp, s.plain = esc, sp, text
    body = "".join(c for c in esc if c not in "][^\\")
    s.esc_rx = r.choice(["[][^\\\\%s]" % body, "(\\\\|[][%s^])" % body])
    s.sp_rx = "[ \\n\\t\\r%s]" % sp[4:]
    s.rules, used = [], set()
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        o, c = r.choice(PAIR); n = r.choice(NAMES); x = r.random()
        eos = r.random() < .35; eoh = eos and r.random() < .4
        pr = r.choice([1, 2, 3, 4, 10])
        if x < .3: k = ("tag", attrs(o, n, c), None)
        elif x < .4: k = ("tag", attrs(o + ("/" if o != "\\" else "."), n, c), None)
        elif x < .5: k = ("tag", any_of(r.sample(["%%", "||", "-->", "<>", "§" + n, "日本", "..", "e"], r.choice([1, 2, 3]))), None)
        elif x < .6: k = ("tag", word(r.choice(["\\", "{\\", "%", "日"])), None)
        else:
            b = attrs(o, n, c) if r.random() < .4 else lit(r.choice([o + n, o + o, "<!--", "{{", "«" + n]))
            e = lit(r.choice([c + c, o + "/" + n + c, "-->", "}}", c, "»" + n, "end"]))
            if b.flex in used: continue
            used.add(b.flex); k = ("be", b, e)
        s.rules.append(dict(kind=k[0], a=k[1], b=k[2], eos=eos, eoh=eoh, pri=pr, type="comment" if k[0] == "be" else r.choice(["empty", "open", "close"])))
    if not s.rules: s.rules.append(dict(kind="tag", a=lit("%%"), b=None, eos=False, eoh=False, pri=1, type="empty"))
    s.repl = []
    if r.random() < .7:
        for o, c in r.sample([("&", ";"), ("_", "_"), ("=", "")], r.choice([1, 1, 2])):
            m, tg = [], r.sample(["é", "ñ", "日", "😀", "+", '"', "`", "ab", "'"], r.choice([1, 3, 4]))
            for t in tg:
                for q in range(r.choice([1, 1, 2])):
                    m.append((o + r.choice(["a", "b", "c", "amp", "x9", "z"]) + r.choice("0123456789") + c, t, q == 0 and r.random() < .7))
            seen, m2 = set(), []
            for x in m:
                if x[0] not in seen: seen.add(x[0]); m2.append(x)
            s.repl.append(dict(flex=fq(o) + "[a-z0-9]+" + (fq(c) if c else ""), rx=py(o) + b"[a-z0-9]+" + py(c), map=m2))
    # characters which the reformatter turns into entities are not text of this format
    s.back = {}
    for p in s.repl:
        for src, t, pref in p["map"]:
            if pref and len(t.encode()) == 1: s.back.setdefault((id(p), t), None); s.back[(id(p), t)] = src
    first = {}
    for p in s.repl:
        for (pid, t), src in s.back.items():
            if pid == id(p): first.setdefault(t, src)      # earlier replacement rules win
    s.back = first
    return s
def cstr(t): return t.replace("\\", "\\\\").replace('"', '\\"')
def xml(s):
    o = ['<?xml version="1.0" encoding="UTF-8"?>', '<format name="%s">' % s.name, "<options>", '<largeblocks size="%d"/>' % s.size,
         '<input encoding="UTF-8"/><output encoding="UTF-8"/>', "<tag-name regexp=%s/>" % quoteattr("[a-zA-Z]+"),
         "<escape-chars regexp=%s/>" % quoteattr(s.esc_rx), "<space-chars regexp=%s/>" % quoteattr(s.sp_rx),
         '<case-sensitive value="%s"/>' % ("yes" if s.cs else "no"), "</options>", "<rules>"]
    for x in s.rules:
        o.append('<format-rule type="%s" eos="%s"%s priority="%d">' % (x["type"], "yes" if x["eos"] else "no", ' eoh="yes"' if x["eoh"] else "", x["pri"]))
        o.append("<tag regexp=%s/>" % quoteattr(x["a"].flex) if x["kind"] == "tag" else "<begin regexp=%s/><end regexp=%s/>" % (quoteattr(x["a"].flex), quoteattr(x["b"].flex)))
        o.append("</format-rule>")
    for p in s.repl:
        o.append("<replacement-rule regexp=%s>" % quoteattr(p["flex"]))
        for src, t, pref in p["map"]: o.append("<replace source=%s target=%s%s/>" % (quoteattr(cstr(src)), quoteattr(cstr(t)), ' prefer="yes"' if pref else ""))
        o.append("</replacement-rule>")
    return "\n".join(o + ["</rules>", "</format>", ""])

SRC = {"des": "deformat.xsl", "re": "reformat.xsl", "mtx": "deformat.xsl"}
def make(s, kind, base):
    """Build the program of one kind; -> path or raises BuildError."""
    d = os.path.join(base, "%s-%s" % (s.name, kind)); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "format.xml")
    with open(f, "w", encoding="utf8") as h: h.write(s.xml)
    B.sh(["xmllint", "--dtdvalid", os.path.join(B.AP, "format.dtd"), "--noout", f])
    l = os.path.join(d, "x.l"); cc = os.path.join(d, "x.cc")
    with open(l, "wb") as h: h.write(B.sh(["xsltproc"] + {"des": ["--stringparam", "mode", "apertium"], "mtx": ["--stringparam", "mode", "matxin"], "re": []}[kind] + [os.path.join(B.AP, SRC[kind]), f]))
    B.sh(["flex"] + (["-Cfer"] if s.opt else []) + ["-o" + cc, l])
    out = os.path.join(d, s.name + "-" + kind)
    B.sh([B.CXX, "-DGENFORMAT", "-w"] + [x for x in B.cxxflags() if x not in ("-DHAVE_CONFIG_H", "-O2", "-O1", "-g")] + ["-O0"] + B.SAN + [cc, "-o", out] + B.LIBS)
    return out

def lexer(s):
    fl = 0 if s.cs else re.I
    C = lambda p: re.compile(p, fl | re.S)
    def act(x): return (x, C(x["a"].rx))
    begins = [x for x in s.rules if x["kind"] == "be"]
    init = [act(x) for x in s.rules]
    inside = {}
    for x in begins:
        inside[id(x)] = [act(y) for y in sorted((y for y in s.rules if y["pri"] < x["pri"]), key=lambda y: y["pri"])] + [("end", C(x["b"].rx))]
    init += [(p, C(p["rx"])) for p in s.repl]
    sp, esc = s.sp.encode(), s.esc.encode()
    def run(doc):
        """-> pieces (kind, source, visible) as in fmt.model: t text, m markup, e markup ending a sentence, h heading end"""
        b = doc.encode("utf8"); i = 0; st = []; out = []
        def best(rules):
            w = None
            for x, rx in rules:
                m = rx.match(b, i)
                if m and m.end() > i and (w is None or m.end() - i > w[1]): w = (x, m.end() - i)
            return w
        while i < len(b):
            w = best(inside[id(st[-1])] if st else init)
            if w is None or (w[1] == 1 and False):
                n = 1
                while i + n < len(b) and b[i + n] & 0xC0 == 0x80: n += 1
                ch = b[i:i + n].decode("utf8")
                out.append(("m", ch, None) if st or ch in s.sp else ("t", ch, ch)); i += n; continue
            x, n = w; src = b[i:i + n].decode("utf8"); i += n
            if x == "end": st.pop(); out.append(("m", src, None))
            elif "map" in x:
                t = dict((a, c) for a, c, _ in x["map"]).get(src)
                if t is None: out.append(("m", src, None))
                else:
                    out.append(("r", src, t))
            else:
                out.append(("h" if x["eoh"] else "e" if x["eos"] else "m", src, None))
                if x["kind"] == "be": st.append(x)
        return out
    return run

def document(r, s, size):
    txt = ["a", "B", "é", "ñ", "日", "😀", "0", "1", ",", "?", "-", ":", ".", ".", "[]"] + s.plain
    out = []
    for _ in range(size):
        x = r.random()
        if x < .3: out.append("".join(r.choice(txt) for _ in range(r.randint(1, 4))))
        elif x < .45: out.append(r.choice(s.sp) if r.random() < .5 else r.choice([" ", " ", "  ", " \n", "\r\n"]))
        elif x < .55: out.append(r.choice(s.esc))
        elif x < .6 and s.repl:
            p = r.choice(s.repl); out.append(r.choice(p["map"])[0])
        elif x < .63 and s.repl: out.append(r.choice(["&none;", "&x", "_q_", "=zz", "&;"]))
        else:
            k = r.choice(s.rules); a = k["a"].gen(r)
            if not s.cs and r.random() < .3: a = "".join(c.upper() if c.isascii() else c for c in a)
            if k["kind"] == "be":
                if r.random() < .9:
                    m = "".join(r.choice(txt + list(s.esc) + [" ", "\n"]) for _ in range(r.choice([0, 2, 6, 40])))
                    if r.random() < .3: m += r.choice(s.rules)["a"].gen(r)
                    a += m
                if r.random() < .93: a += k["b"].gen(r)
            elif r.random() < .08: a = a[:r.randint(1, len(a))]
            out.append(a)
    d = "".join(out)
    # what the reformatter writes as an entity is not plain text in such a format
    for t in s.back: d = d.replace(t, "")
    return d
