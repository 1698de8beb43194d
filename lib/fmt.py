"""Document generators and the reference model of the format filters.

A document is a list of pieces (kind, source, visible):
  "t"  one text character (visible = the character exposed for translation)
  "m"  markup or whitespace that belongs in a blank;  "e" the same, ending a
  sentence;  "h" the same, ending a heading too.
"""
import random, re

import html.entities
def _html():
    e = {"&%s;" % n: chr(c) for n, c in html.entities.name2codepoint.items() if 0xc0 <= c <= 0xff and c not in (0xd7, 0xf7)}
    for c in list(range(0xc0, 0xd7)) + list(range(0xd8, 0xf7)) + list(range(0xf8, 0x100)) + [0xb7, 0xab, 0xbb, 0xa1, 0xbf]:
        e.update({"&#%d;" % c: chr(c), "&#x%X;" % c: chr(c), "&#x%x;" % c: chr(c)})
    for c in (264, 265, 284, 285, 292, 293, 308, 309, 348, 349, 364, 365, 39): e["&#%d;" % c] = chr(c)
    for n in ("middot", "laquo", "raquo", "iexcl", "iquest"): e["&%s;" % n] = chr(html.entities.name2codepoint[n])
    return e
HTML_ENT = _html()
XML_ENT = {"&apos;": "'"}
RTF_ENT = {"\\'%02x" % c: chr(c) for c in range(0xc0, 0x100) if c not in (0xd7, 0xf7)}
RTF_ENT.update({k + n: v for k, v in list(RTF_ENT.items()) for n in ("\n", "\r\n")})
RTF_ENT["\\rquote "] = "'"
UNK_ENT = ["&amp;", "&lt;", "&gt;", "&nbsp;", "&#160;", "&hellip;", "&#x2014;"]

WS = (" ", " ", " ", "\n", "\r\n", "\t", "  ")
def attr(r, sep=(" ",)):
    return "".join('%s%s="%s"' % (r.choice(sep), r.choice(["class", "id", "href", "style", "xml:space", "w:val"]), "".join(r.choice("abc/.?=&;:-_ [](){}^$@\\'~+é0") for _ in range(r.randint(0, 9)))) for _ in range(r.choice([0, 0, 1, 1, 2])))
def case(r, t): return t if r.random() < .85 else t.upper() if r.random() < .5 else t.capitalize()
def inner(r, forbid, n=40):
    """Anything at all that does not contain a forbidden string."""
    while True:
        s = "".join(r.choice(["a", "b ", " ", "<b>", "</p>", "<p>", "[", "]", "^x$", "@", "\\", "/", "{", "}", "$", ".[]", "&eacute;", "é", "\n", "\"", "'", "<", ">", "-", "x.y", "日", "𝔘"]) for _ in range(r.randint(0, r.choice([3, 10, n]))))
        if not any(f in s.lower() for f in forbid): return s
def html_markup(r, alt=False):
    x = r.random()
    if x < .3:
        t = case(r, r.choice(["br", "hr", "p", "li", "ul", "ol", "tr", "td", "th", "div", "option", "title", "h1", "h2", "h6"]))
        if r.random() < .5: return [("e", "<%s%s>" % (t, attr(r, WS)), None)]
        k = "h" if t.lower() in ("title", "h1", "h2", "h6") else "e"
        return [(k, "</%s>" % t, None)]
    if x < .55:
        t = case(r, r.choice(["b", "i", "em", "a", "span", "font", "html", "body", "table", "img", "link", "input", "code", "x-y"]))
        return [("m", r.choice(["<%s%s>" % (t, attr(r, WS)), "</%s>" % t]), None)]
    if x < .62: return [("m", "<!--%s-->" % inner(r, ["-->", "--"]), None)]
    if x < .67: return [("m", "<%s%s>%s</%s%s>" % (case(r, "script"), attr(r, WS), inner(r, ["<!", "--", "{{", "}}", "<b", "</"]), case(r, "script"), r.choice(["", "", "", " ", " x=\"1\"", " \n"])), None)]
    if x < .71: return [("m", "<%s%s>%s</%s%s>" % (case(r, "style"), attr(r, WS), inner(r, ["<!", "--", "{{", "<b", "<p", "</", "<"]), case(r, "style"), r.choice(["", "", " ", " \t"])), None)]
    if x < .75: return [("m", "<apertium-notrans%s>%s</apertium-notrans>" % (attr(r, WS), inner(r, ["<!", "--", "{{", "<"])), None)]
    if x < .79: return [("m", "{{%s}}" % inner(r, ["}}", "{{", "<!", "{", "}"]), None)]
    if x < .83: return [("m", r.choice(["<!DOCTYPE html>", '<?xml version="1.0"?>', '<!doctype html PUBLIC "-//W3C">']), None)]
    if x < .9: return [("m", r.choice(UNK_ENT), None)] if not alt else []
    if not alt:
        s = r.choice(sorted(HTML_ENT)); return [("t", s, HTML_ENT[s])]
    return [("m", '<img src="x.png" alt="', None)] + text(r, "", 2, "\"'") + [("m", '"%s>' % r.choice(["", " ", ' width="3" title="[x]"', "/"]), None)]
def noent_markup(r):
    while True:
        m = html_markup(r)
        if m[0][1][:1] != "&": return m
def xml_markup(par, com, other):
    """A flat XML vocabulary: paragraph tags, (open, close, eos) comment pairs, other tags."""
    def f(r):
        x = r.random()
        if x < .35:
            t = r.choice(par); return [("e", r.choice(["<%s%s>" % (t, attr(r, WS)), "</%s>" % t]), None)]
        if x < .65:
            t = r.choice(other); return [("m", r.choice(["<%s%s>" % (t, attr(r, WS)), "</%s>" % t, "<%s%s/>" % (t, attr(r, WS))]), None)]
        if x < .72: return [("m", "<!--%s-->" % inner(r, ["--"]), None)]
        if x < .82 and com:
            o, c, k = r.choice(com)
            if o.endswith(">"): o = o[:-1] + attr(r, WS) + ">"
            return [(k, o + inner(r, ["<!", "--", "<", "&lt;"]) + c, None)]
        if x < .87: return [("m", "&lt;apertium-notrans&gt;%s&lt;/apertium-notrans&gt;" % inner(r, ["<", "&lt;"]), None)]
        if x < .9: return [("m", '<?xml version="1.0" encoding="UTF-8"?>', None)]
        if x < .95: return [("m", r.choice([e for e in UNK_ENT if "lt" not in e]), None)]
        return [("t", "&apos;", "'")]
    return f
def rtf_markup(r):
    x = r.random()
    if x < .5: return [("m", "\\%s%s" % (r.choice(["b", "i0", "fs24", "f0", "lang3082", "plain", "cf1", "tab", "pard", "rtf1", "ql", "rquotable", "red1"]), r.choice([" ", " ", "\n", "  "])), None)]
    if x < .75: return [("m", r.choice(["{", "}", "{\\b ", "{\\*\\f1 "]), None)]
    if x < .85:
        s = r.choice([k for k, v in RTF_ENT.items() if v]); return [("t", s, RTF_ENT[s])]
    k = r.choice(["fcharset0 Times New Roman;", "fnil Arial;", "fmodern Courier;", "froman\\fcharset2 Symbol Neu;", "snext0 Normal;", "fswiss Helvetica;", "fscript Zapf;", "fdecor Old;", "ftech Wingdings;", "fbidi David;", "falt Zz;", "fontfile x.ttf;", "keycode x;"])
    return [("m", "{\\f1\\%s" % k, None)] if r.random() < .5 else [("m", "{\\*\\%s}" % r.choice(["pict 0a1b[x]\n", "colortbl ;\\red0 ", "object abc", "fldinst HYPERLINK x", "bkmkstart _x"]), None)]
def wiki_markup(r):
    x = r.random()
    if x < .2: return [("m", r.choice(["[", "]", "''", "'''", "[[", "]]"]), None)]
    if x < .35: return [("e", r.choice(["==", "===", "===="]), None)]
    if x < .5: return [("m", "\n", None), ("m", r.choice(["*", "**", "#", ":", ";", "*#"]), None)]
    if x < .6: return [("m", "[[%s:%s]]" % (r.choice(["file", "Image", "es", "eng"]), r.choice(["x.png|thumb", "Foo bar", "a^b$"])), None)]
    if x < .68: return [("m", "{{%s}}" % inner(r, ["}", "{", "<!"]), None)]
    if x < .74: return [("m", "&lt;math&gt;%s&lt;/math&gt;" % inner(r, ["<", "&lt;", "{"]), None)]
    if x < .8: return [("m", "<%s>%s</%s>" % (lambda t: (t, inner(r, ["<", "{{", "{"]), t))(r.choice(["id", "timestamp", "contributor", "comment", "siteinfo"])), None)]
    if x < .86: return [("m", r.choice(["&lt;ref&gt;", "&lt;/ref&gt;", "&lt;br /&gt;"]), None)]
    while True:
        m = html_markup(r)
        if m[0][0] == "h": return [("e", m[0][1], None)]
        if m[0][1][:1] not in "&{": return m
def xpress_markup(r):
    x = r.random()
    if x < .4: return [("m", r.choice(["<B>", "<I>", "<$>", "<f\"Times\">", "<z12.5>", "<P>", "<@body>", "<\\n>"]), None)]
    if x < .5: return [("e", r.choice(["<B->", "<e0->", "<x->"]), None)]
    if x < .75: return [("e", r.choice(["@body:", "@Normal text:", "@h1:"]), None)]
    return [("e", r.choice(["@body=[S\"\",\"x\"]", "@x=", "@title=[a]"]), None)]

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFG" + "éñçßøжд日ñ" + "𝔘😀"
# reserved: characters that are text but must be escaped; plain: other text;
# spaces: characters that belong in blanks
F = {
 "txt": dict(reserved="[]\\/@<>^${}", plain=".,;:!?-'\"&*#+=%()0123456789_|`", blanks=["~", "\r\n"], markup=lambda r: [("e", r.choice(["\n\n", "\n\n\n\n", "\r\n\r\n"]), None)], ent={}),
 "html": dict(reserved="[]^@\\/$", plain=".,;:!?-'\"*#+=%()0123456789_|`", blanks=["~", "<", " < ", ">"], markup=html_markup, ent=HTML_ENT),
 "html-noent": dict(reserved="[]^@\\/$", plain=".,;:!?-'\"&*#+=%()0123456789_|`", blanks=["~", " < "], markup=noent_markup, ent={}),
 "html-alt": dict(reserved="[]^@\\/$", plain=".,;:!?-&*#+=%()0123456789_|`", blanks=["~", " < "], markup=lambda r: html_markup(r, True) or [("m", "<b>", None)], ent={}),
 "odt": dict(reserved="[]^@\\/$", plain=".,;:!?-'\"*#+=%()0123456789_|`", blanks=["~", "{", "}"], ent=XML_ENT,
    markup=xml_markup(["text:p", "text:h"], [("<math:mi>", "</math:mi>", "m"), ('<math xmlns="x">', "</math>", "m")], ["text:span", "text:a", "office:body", "draw:frame", "text:s", "text:tab"])),
 "wxml": dict(reserved="[]^@\\/${}", plain=".,;:!?-'\"*#+=%()0123456789_|`", blanks=["~"], ent=XML_ENT,
    markup=xml_markup(["w:p"], [("<Properties>", "</Properties>", "m"), ("<pkg:binaryData>", "</pkg:binaryData>", "e"), ("<w:instrText>", "</w:instrText>", "e"), ("<w:drawing>", "</w:drawing>", "e")], ["w:r", "w:t", "w:pPr", "w:rPr", "w:b", "w:tab", "w:body"])),
 "pptx": dict(reserved="[]^@\\/$", plain=".,;:!?-'\"*#+=%()0123456789_|`", blanks=["~", "{", "}"], ent=XML_ENT,
    markup=xml_markup(["a:p"], [("<pkg:binaryData>", "</pkg:binaryData>", "e"), ("<p:timing>", "</p:timing>", "e")], ["a:r", "a:t", "p:sld", "a:rPr", "a:br"])),
 "xlsx": dict(reserved="[]^@\\/${}", plain=".,;:!?-'\"*#+=%()0123456789_|`", blanks=["~"], ent=XML_ENT,
    markup=xml_markup(["si"], [("<f>", "</f>", "e"), ('<f t="x">', "</f>", "e")], ["t", "r", "sst", "rPr", "sheet", "font"])),
 "rtf": dict(reserved="[]<>@^/", plain=".,;:!?-'\"&#+=%()0123456789_|`", blanks=["~", "$", "*"], markup=rtf_markup, ent=RTF_ENT),
 "mediawiki": dict(reserved="^@\\/$", plain=".,!?-\"*#+%()0123456789_|`", blanks=["~", "{ ", "} "], markup=wiki_markup, ent={}),
 "xpresstag": dict(reserved="[]^\\/${}", plain=".,;!?-'\"&#+%()0123456789_|`", blanks=["~", "*"], markup=xpress_markup, ent={}),
}
def text(r, reserved, n, without=""):
    out = []
    for _ in range(n):
        for _ in range(r.randint(1, 5)):
            x = r.random()
            c = r.choice(LETTERS) if x < .85 or not reserved else r.choice(reserved) if x < .95 else "-"
            if c not in without: out.append(("t", c, c))
        if out: out.append(("m", " ", None))
    return out[:-1]
def document(r, fmt, size):
    f = F[fmt]; out = []
    for _ in range(size):
        x = r.random()
        if x < .45: out += text(r, f["reserved"], r.randint(1, 4))
        elif x < .55: c = r.choice(f["plain"]); out.append(("t", c, c))
        elif x < .7: out.append(("m", r.choice([" ", " ", "\n", "  ", " \n", "\t", "\r\n"]), None))
        elif x < .76 and f["blanks"]:
            b = r.choice(f["blanks"]); out.append(("m", b, None))
        else: out += f["markup"](r)
    if r.random() < .03:
        k = r.randrange(len(out) + 1)
        while k < len(out) and out[k][1].strip("*#:;") == "": k += 1     # not between a newline and a list mark
        out[k:k] = big(r, fmt)
    return line_starts(out) if fmt == "mediawiki" else out
def big(r, fmt):
    """A blank of more than 8192 characters."""
    n = r.choice([4090, 8180, 8192, 9000, 20000])
    s = {"txt": " \n", "rtf": " \n", "xpresstag": " \n", "mediawiki": "<!--%s-->" % ("[é] ^" * (n // 5)), }.get(fmt)
    if s is None or len(s) < 10: s = ("  \t" * n)[:n] if fmt in ("txt", "rtf", "xpresstag") else "<!--%s-->" % ("x[é]\\ ^" * (n // 7))[:n]
    return [("m", s, None)]

def ambiguous(fmt, pieces):
    """True if adjacent pieces could read as other markup than intended."""
    s = "".join(p[1] for p in pieces)
    plain = []                       # text and loose blanks with markup cut out
    for k, src, vis in pieces:
        if k == "t" and src == vis or (k == "m" and len(src) <= 3 and src[0] in " \n\t\r~<>{}*$"): plain.append(src)
        else: plain.append("\1")
    t = "".join(plain)
    if fmt == "txt": return bool(re.search(r"\n\r?\n", t)) or "\n\1" in t or "\1\n" in t or "\r\n\1" in t or "\1\r" in t or "\1\1" in t
    if fmt in ("html", "html-noent", "mediawiki", "html-alt"):
        if "{{" in t or "{\1" in t or "}\1" in t or "\1{" in t or "\1}" in t: return True
        if re.search(r"<[A-Za-z/!?\1]", t): return True
        if fmt == "html-alt" and re.search(r"[\"']", t): return True
        if fmt == "mediawiki":
            if any(k == "t" and src in "*#=:;" and re.search(r"(^|\n)[*=:;#]*$", before) for k, src, before in with_before(pieces)): return True
            if re.search(r"''+", t) or "=" in t: return True
    if fmt == "html" and "&" in t: return True
    if fmt in ("odt", "wxml", "pptx", "xlsx") and ("<" in t or "&" in t): return True
    if fmt == "rtf" and (re.search(r"[a-f0-9]{12,}", t) or re.search(r"\\'[0-9a-f]{2}[\r\n]|\{[ \r\n]*\\rquote", s)): return True
    if fmt == "xpresstag" and ("@" in t or re.search(r"@[^<:=]+=\[", s.replace(":@title=[a]", ""))): return True
    return False

def with_before(pieces):
    b = ""
    for k, src, _ in pieces:
        yield k, src, b
        b += src
def line_starts(pieces):
    """MediaWiki: list, indent and heading marks that start a line do not end a
    sentence."""
    return [("m" if k == "e" and re.fullmatch("=+", src) and re.search(r"(^|\n)[*=:;#]*$", b) else k, src, p[2]) for (k, src, b), p in zip(with_before(pieces), pieces)]
def runs(pieces):
    """-> list of ('t', char) and ('r', source, flags) with adjacent blanks joined."""
    out = []
    for k, src, vis in pieces:
        if k == "t": out.append(["t", vis])
        elif out and out[-1][0] == "r": out[-1][1] += src; out[-1][2] |= {k}
        else: out.append(["r", src, {k}])
    return out
def model(pieces, i=False, n=False, o=False):
    """The stream a deformatter must emit: list of (kind, value): text char,
    blank content, dot (a sentence mark), sp (a bare space), eoh."""
    out = []; R = runs(pieces)
    pend_dot = pend_h = False
    def flush(run, eof):
        nonlocal pend_dot, pend_h
        if pend_h and o: out.append(("eoh", "")); pend_h = False
        if pend_dot and not i: out.append(("dot", "")); pend_dot = False
        if run == " ": out.append(("sp", " "))
        elif run:
            if i: out.append(("dot", ""))
            out.append(("blank", run))
    run = ""
    for x in R:
        if x[0] == "r":
            run = x[1]
            if x[2] & {"e", "h"}: pend_dot = True
            if "h" in x[2]: pend_h = True
        else:
            flush(run, False); run = ""
            out.append(("char", x[1]))
    pend_dot = True
    if i: out.append(("dot", ""))
    flush(run, True)
    return out
def render(model_, n):
    """Flatten to comparable units; with -n a mark after a full stop of the
    text may be left out (it would read as '.[]')."""
    return model_

def read_stream(s, n, load):
    """Parse a deformatter's output into the same units; raises ValueError on
    an unescaped reserved character outside blanks."""
    out = []; i = 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            if i + 1 >= len(s): raise ValueError("trailing backslash")
            out.append(("char", s[i+1])); i += 2
        elif s.startswith(".[]", i) and not n: out.append(("dot", "")); i += 3
        elif s.startswith("[]❡", i): out.append(("eoh", "")); i += 3
        elif c == "❡" and i and out and out[-1] == ("char", "."): out.append(("eoh", "")); i += 1     # "[]" would join the full stop
        elif s.startswith("[]", i):
            if not n: raise ValueError("empty blank at %d" % i)
            out.append(("dot", "")); i += 2
        elif c == "[":
            if s.startswith("[@", i):
                j = s.index("]", i); out.append(("blank", load(s[i+2:j]))); i = j + 1; continue
            j = i + 1; b = []
            while True:
                if j >= len(s): raise ValueError("unterminated blank")
                if s[j] == "\\": b.append(s[j+1]); j += 2
                elif s[j] == "]": break
                elif s[j] == "[": raise ValueError("[ inside a blank at %d" % j)
                else: b.append(s[j]); j += 1
            out.append(("blank", "".join(b))); i = j + 1
        elif c in "]^$@{}/<>" : raise ValueError("unescaped %s at %d" % (c, i))
        elif c == " ": out.append(("sp", c)); i += 1
        elif c in "\n\t\r": raise ValueError("whitespace outside a blank at %d" % i)
        else: out.append(("char", c)); i += 1
    return out

def soup(r, fmt, size):
    """Any sequence of markup fragments and text: only the round trip is judged."""
    f = F[fmt]
    frag = ["<", ">", "&", ";", "{", "}", "[", "]", "^", "$", "@", "\\", "/", ".", ".[]", "[]", "[@x]", "\\@", "[[", "]]", "<!--", "-->", "<p>", "<b", "=", "'", "\"", "\n\n", "\r", " ", "  ", "~", "*", "#", "+", "\\'e", "\\par", "\\rquote", "{{", "}}", "&lt;", "&#", "a", "Bc", "é", "日", "😀", "0123456789abcdef01234", "<script>", "</script>", "<f>", "</f>", ":", "❡", "\\\\", "\\{"]
    out = []
    for _ in range(size):
        x = r.random()
        if x < .5: out.append(r.choice(frag))
        elif x < .75: out.append("".join(p[1] for p in f["markup"](r)))
        else: out.append("".join(p[1] for p in text(r, f["reserved"], 1)))
    return "".join(out)
import html
_ent = re.compile(r"&(?:[a-zA-Z]+|#x[0-9a-fA-F]{1,4}|#[0-9]{1,8});")
def normalise(fmt, s):
    """The same document with escaped characters replaced by the characters."""
    if fmt == "rtf":
        s = s.replace("\\rquote ", "'")
        return re.sub(r"\\'([0-9a-fA-F]{2})(?:\r\n|\r|\n)?", lambda m: bytes.fromhex(m.group(1)).decode("cp1252", "replace"), s)
    if not F[fmt]["ent"]: return s
    return _ent.sub(lambda m: "'" if m.group(0) == "&rsquo;" else html.unescape(m.group(0)), s)
