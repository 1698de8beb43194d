"""Generator of LaTeX documents for the LaTeX pipeline.

A piece is (source, raw, cooked): the source, and what apertium-postlatex-raw
and apertium-postlatex have to give back for it.  Words of the text are built
from V, everything that must not be translated from H, so that one look at the
stream tells what was exposed.
"""
import re, unicodedata
V = ["ovo", "Tova", "movol", "avov", "vox", "Ovre"]          # exposed words all contain "ov" or "vo"
H = ["qzq", "Qzk", "zqx", "qzx1"]                            # hidden ones contain "qz" or "zq"
ACC = {a + b: unicodedata.normalize("NFC", b + m) for a, m in zip("`'^\"", "\u0300\u0301\u0302\u0308") for b in "aeouyAEIOUY"}
ACC.update({"~n": "ñ", "~N": "Ñ"})
LIG = {"{\\oe}": "œ", "{\\OE}": "Œ", "{\\ae}": "æ", "{\\AE}": "Æ", "{\\aa}": "å", "{\\AA}": "Å", "{\\o}": "ø", "{\\O}": "Ø", "{\\ss}": "ß", "{\\l}": "ł"}
COOK = {v: "\\%s{%s}" % (k[0], k[1:]) for k, v in ACC.items()}
COOK.update({"í": "\\'{\\i}", "ì": "\\`{\\i}", "î": "\\^{\\i}", "ï": "\\\"{\\i}", "ç": "\\c{c}", "Ç": "\\c{C}", "¿": "?`", "¡": "!`"})
COOK.update({v: k for k, v in LIG.items()})
def same(s): return [(s, s, "".join(COOK.get(x, x) for x in s))]
def rawly(s): return [(s, s, s)]                              # kept as it is by both post-processors
def out(src, ch): return [(src, ch, COOK.get(ch, ch))]
def hid(r, n=3): return " ".join(r.choice(H) for _ in range(r.randint(1, n)))
def accent(r):
    x = r.random()
    if x < .3:
        k = r.choice(sorted(ACC)); return out("\\" + k if r.random() < .5 else "\\%s{%s}" % (k[0], k[1:]), ACC[k])
    if x < .45:
        a = r.choice("'`^\""); ch = {"'": "í", "`": "ì", "^": "î", '"': "ï"}[a]
        if r.random() < .5: return out("\\%s{\\i}" % a, ch)
        return out("\\%s\\i" % a, ch) + same(" ")
    if x < .47: a = r.choice(["oo", "xy", "ia", "OO"]); return out("\\t{%s}" % a, a)
    if x < .55: c = r.choice("cC"); return out("\\c{%s}" % c, {"c": "ç", "C": "Ç"}[c])
    if x < .75: k = r.choice(sorted(LIG)); return out(k, LIG[k])
    v = r.choice(sorted(x for x in COOK if x not in "¿¡") + ["日", "𝔘", "Ω", "ū"])
    return out(v, v)
def word(r):
    w = r.choice(V)
    if r.random() < .2:
        i = r.randint(0, len(w)); return same(w[:i]) + accent(r) + same(w[i:]) if r.random() < .3 else same(w) + accent(r) + same(r.choice(V))
    return same(w)
# accents over letters that are in no table, and things that look like accents
ODD = ["\\'w", "\\v{s}", "\\=o", "\\.z", "\\H{o}", "\\u{g}", "\\^{}", "\\~{}", "\\'{}", "\\k{a}", "\\b{o}", "\\d{h}", "\\r{u}", "\\\"{xy}", "\\c s", "\\v c", "\\'i", "\\`{i}", "\\-", "\\,", "\\;", "\\ ", "\\/", "\\_", "\\@", "\\:", "\\!"]
ESC = ["\\{", "\\}", "\\%", "\\&", "\\#", "\\$", "&", "~", "\"", "'", "`", "``", "''", "--", "---", "<", ">", "=", "*", "+", "_", "^", "(", ")", "/", "@", ".", ",", "!", "?", ":", ";", "|", "]", "\\#12", "\\#205x", "\\#3", "...", "\\\\", "\\\\[2pt]", "\\\\*"]
MATH = ["qzx", "_", "^2", "\\alpha ", "\\frac{qz}{zq}", "a<qz", "zq>1", "\\{qzk\\}", "&", "+", "=", " ", "\\,", "\\$", "#", "%\n", "'", "\"", "[", "]", "{", "}", "@", "\\left[", "^\\prime", "\\mbox{zq}", "é", "/", "\\\\", "~"]
def math(r, no=()):
    s = ""
    for _ in range(r.randint(1, 6)): s += r.choice([m for m in MATH if m not in no])
    return s
def key(r): return r.choice(["fig:qzq", "zqx2004", "qz_1", "zq-3", "qz/zq", "qzx,zqx", "qz.zq+1"])
def comment(r):
    # a comment keeps everything up to the end of the line as it is
    return rawly("%" + "".join(r.choice([" ", "qz", "zqk", "\\section{qz}", "{", "}", "$", "[", "]", "\\", "&", "#", "%", "'", "\"", "^", "@", "/", "~", "<", ">", "\\'e", "qzé"]) for _ in range(r.randint(0, 7))) + r.choice(["\n", "\n", "\n", "\r\n"]))
VERBS = "|!?/#+"
def verb(r):
    d = r.choice(VERBS)
    return rawly("\\verb" + d + "".join(x for x in (r.choice(["qz", "zq", "\\", "{", "}", "$", "&", "#", "%", "[", "]", "'", "\"", "~", "^", " ", "|", "/", "!", "<", ">", "?"]) for _ in range(r.randint(1, 6))) if d not in x) + "qz" + d)
def opt(r):
    return rawly("[" + "".join(r.choice(["qz", "=", ",", "zq", " ", "2cm", "{", "}", "\\", "*", "#1", "$", "&", "'", "\"", "/", "^", "%", "<", ">", "~", "@"]) for _ in range(r.randint(1, 5))) + "]")
def arg(r): return same("{" + "".join(r.choice(["qz", "zq", " ", "-", ".", "/", "_", "1", "=", ",", ":", "|", "é", "&", "~", "'", "\"", "<", ">", "+", "#1"]) for _ in range(r.randint(0, 5))) + "}")
def inline(r, d):
    x = r.random()
    if x < .42: return word(r)
    if x < .5: return same(r.choice(ESC) + r.choice(["", " "]))
    if x < .53: return same(r.choice(ODD)) + same(" ")
    if x < .56: return [r.choice([("?`", "?`", "?`"), ("!`", "!`", "!`"), ("¿", "?`", "?`"), ("¡", "!`", "!`")])]
    if x < .62: return rawly("$" + math(r) .replace("$$", "$ $") + "qz$" + " ")
    if x < .65: return verb(r)
    if x < .71: return same("\\" + r.choice(["cite", "ref", "cite*", "ref*"]) + r.choice(["", " ", "\n"]) + "{" + key(r) + "}")
    if x < .75: return same("\\" + r.choice(["label", "pageref", "input", "includegraphics", "vspace*", "hskip", "url"])) + (opt(r) if r.random() < .3 else []) + arg(r)
    if x < .8: return same("\\" + r.choice(["LaTeX", "today", "noindent", "small", "foo", "centering", "TeX", "rm", "bf", "it", "ldots", "tb", "in", "newline*"])) + same(r.choice([" ", "{}", "\n", "\\,"]))
    if x < .83: return comment(r)
    if x < .85: return same(" ") + opt(r)
    if d and x < .93: return same("\\" + r.choice(["textit", "textbf", "emph"]) + r.choice(["", "", "*", " "]) + "{") + run(r, d - 1) + same("}")
    if d and x < .96: return same("\\" + r.choice(["footnote", "thanks", "framebox"]) + "{") + run(r, d - 1) + same("}")
    if d and x < .98: return same("{\\" + r.choice(["bf", "em", "sf", "sc"]) + " ") + run(r, d - 1) + same("}")
    return arg(r)
def run(r, d, n=6):
    o = []
    for _ in range(r.randint(1, n)):
        o += inline(r, d)
        if r.random() < .7: o += same(r.choice([" ", " ", " ", "\n", "  ", "\t"]))
    return o
def block(r, d):
    x = r.random()
    if x < .4: return run(r, d, 12) + same(r.choice(["\n\n", "\n", "\r\n"]))
    if x < .58:
        c = r.choice(["section", "chapter", "part", "subsection", "subsubsection", "title", "paragraph", "frametitle", "caption", "section*", "chapter*"])
        o = same("\\" + c)
        if r.random() < .25 and not c.startswith(("title", "paragraph", "caption")): o += same("[") + [p for _ in range(r.randint(1, 4)) for p in rawly(r.choice(["vov", "Movo"] + [" ", ", ", "'", "é", "-"]))] + same("]")
        return o + same("{") + run(r, d) + same("}\n")
    if x < .6: return rawly("$$qz" + math(r).replace("$$", "$ $") + "zq$$\n")
    if x < .65: return same(r.choice(["\\[%s\\]", "\\(%s\\)", "\\begin{equation}%s\\end{equation}", "\\begin{eqnarray*}%s\\end{eqnarray*}"]) % ("qz" + math(r, ("\\$", "$", "[", "]", "\\left[")) + "zq") + "\n")
    if x < .8 and d:
        e = r.choice(["itemize", "itemize*", "enumerate", "quote", "center", "figure*", "document", "abstract", "tabular", "table", "Theorem", "Lemma2*", "QZ3"])
        o = same("\\begin{%s}" % e) + (opt(r) if r.random() < .2 else []) + (arg(r) if r.random() < .2 else []) + same("\n")
        for _ in range(r.randint(0, 3)):
            if e.startswith(("item", "enum")): o += same("\\item" + r.choice([" ", "\n"]))
            o += block(r, d - 1)
        return o + same("\\end{%s}\n" % e)
    if x < .88: return comment(r)
    if x < .94: return same(r.choice(["\\usepackage", "\\documentclass"])) + (opt(r) if r.random() < .5 else []) + same("{" + hid(r, 1) + "}\n")
    return same("\\newcommand{\\qzq}[1]") + arg(r) + same("\n")
GER = {'"' + a: b for a, b in zip("oOaAuUsS", "öÖäÄüÜßß")}
def document(r, n):
    o = []
    for _ in range(n): o += block(r, 2)
    if r.random() > .12: return o
    # with ngerman babel, "o is an accented letter from there on
    k = [i for i, p in enumerate(o) if p[0] in V]
    for i in k:
        if r.random() < .5: g = r.choice(sorted(GER)); o[i] = (o[i][0] + g, o[i][1] + GER[g], o[i][1] + COOK[GER[g]])
    src = "".join(p[0] for p in o)
    if len(re.findall(r'"[oOaAuUsS]', src)) != sum(p[0][-2:] in GER for p in o): return [p for p in o if p[0][-2:] not in GER]
    return same(r.choice(["\\usepackage[ngerman]{babel}\n", "\\usepackage[english,ngerman]{babel}\n", "\\usepackage[ngerman,qzx]{babel}\n"])) + o
