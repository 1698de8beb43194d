"""F04: the DOCX adapter rearranges runs but never loses or invents text."""
import os, sys, unicodedata
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *

W = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
XS = "{http://www.w3.org/XML/1998/namespace}space"
NSDECL = ' xmlns:w="%s" xmlns:mc="urn:mc" xmlns:a="urn:a" xmlns:m="urn:m"' % W
def loc(t): return t.rsplit("}", 1)[-1] if isinstance(t, str) else "!"
def shape(e):
    """Everything of an element, for comparison."""
    return (e.tag, tuple(sorted(e.attrib.items())), (e.text or "") if not len(e) else "", tuple(shape(c) for c in e if isinstance(c.tag, str)))

def wtext(t, preserve):
    s = "".join(t.itertext())
    s = nl(s)
    return s if preserve else s.strip(" ")
def nl(s):
    return re.sub(r"[\n\r]+", " ", s)

def paragraphs(root):
    """[(path, items, others)] for every paragraph: items are ("c", character,
    format, run) and ("x", shape); others the sequence of all other elements."""
    res = []
    def walk(e, path, pres):
        pres = {"preserve": True, "default": False}.get(e.get(XS), pres)
        if loc(e.tag) == "p": res.append((path, e, para(e, pres)))
        for i, c in enumerate(x for x in e if isinstance(x.tag, str)): walk(c, path + "/" + loc(c.tag), pres)
    walk(root, loc(root.tag), False)
    return res

SOFT = {"proofErr", "bookmarkStart", "bookmarkEnd", "commentRangeStart", "commentRangeEnd", "pPr"}
def para(p, pres):
    items = []; soft = []; pairs = []; runid = 0
    for c in p:
        if not isinstance(c.tag, str): continue
        if loc(c.tag) == "r":
            cp = {"preserve": True, "default": False}.get(c.get(XS), pres)
            rpr = [x for x in c if loc(x.tag) == "rPr"]
            fmt = tuple(shape(x) for x in rpr)
            ts = [x for x in c if loc(x.tag) == "t"]
            other = [x for x in c if isinstance(x.tag, str) and loc(x.tag) not in ("rPr", "t")]
            pure = len(ts) == 1 and not other
            if not ts and not other: continue          # renders nothing
            if not pure: items.append(("|",))
            for x in c:
                if not isinstance(x.tag, str) or loc(x.tag) == "rPr": continue
                if loc(x.tag) == "t":
                    xp = {"preserve": True, "default": False}.get(x.get(XS), cp)
                    for ch in wtext(x, xp): items.append(("c", ch, fmt, runid))
                else: items.append(("x", full(x), fmt))
            if not pure: items.append(("|",))
            runid += 1
        elif loc(c.tag) in SOFT: soft.append(shape(c))
        else: items.append(("x", full(c)))
    return items, soft
def full(c):
    """An element that is left alone (up to the paragraphs inside it)."""
    if loc(c.tag) == "p": return ("p",)
    return (c.tag, tuple(sorted(c.attrib.items())), nl(c.text or "") if not len(c) else "", tuple(full(x) for x in c if isinstance(x.tag, str)))

def alpha(c): return c.isalpha()
def glued(t, b):
    """no run boundary may stay at b of text t"""
    g = lambda i: t[i] if 0 <= i < len(t) else ""
    if alpha(g(b-1)) and alpha(g(b)): return True
    if g(b-1) == "-" and g(b-2) and alpha(g(b-2)) and g(b) and alpha(g(b)): return True
    if g(b) == "-" and alpha(g(b-1)) and g(b+1) and alpha(g(b+1)): return True
    if g(b-1) == "·" and g(b-2) in ("l", "L") and g(b) in ("l", "L"): return True
    if g(b) == "·" and g(b-1) in ("l", "L") and g(b+1) in ("l", "L"): return True
    return False
def alpha_(c): return bool(c) and c.isalpha()
alpha = alpha_

def adapted(items):
    """Items with the expected format of every character."""
    out = []; i = 0
    while i < len(items):
        if items[i][0] != "c": 
            if items[i][0] != "|": out.append(items[i])
            i += 1; continue
        j = i
        while j < len(items) and items[j][0] == "c": j += 1
        t = [x[1] for x in items[i:j]]; start = i
        for k in range(i, j):
            if not glued(t, k - i): start = k
            f = {items[start][2]}
            if k == j - 1 and k > i and t[k - i] in "-·":   # at the very end either will do
                f.add(items[k][2]); f |= out[-1][2]
            out.append(("c", items[k][1], f))
        i = j
    return out

ALPH = "abcLlñéЖ漢ß"
def gen(r):
    def esc(s): return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    def text(k):
        s = "".join(r.choice(ALPH) if r.random() < .6 else r.choice(["-", "·", " ", " ", "l·l", "a-b", ".", "1", "&", "<", "'", "😀", ",", "\u00a0", "-", "l", "́"]) for _ in range(r.randint(0 if r.random() < .2 else 1, k)))
        return s
    def rpr():
        return r.choice(["", "", "<w:rPr><w:b/></w:rPr>", "<w:rPr><w:i/></w:rPr>", "<w:rPr><w:b/><w:color w:val=\"FF0000\"/></w:rPr>", "<w:rPr/>"])
    def t(k=6):
        s = text(k)
        sp = ' xml:space="preserve"' if r.random() < .5 or (s and (s[0].isspace() or s[-1].isspace()) and r.random() < .7) else r.choice(["", "", "", ' xml:space="default"'])
        if r.random() < .05: s += r.choice(["\n", "\n \n", " x\ny"])
        x = esc(s)
        if r.random() < .03: x = "<![CDATA[%s]]>" % s.replace("]]>", "")
        elif r.random() < .03 and len(s) > 1: x = esc(s[:len(s)//2]) + "<!--c-->" + esc(s[len(s)//2:])
        return "<w:t%s>%s</w:t>" % (sp, x) if s or r.random() < .5 else "<w:t/>"
    EXTRA = ["<w:tab/>", "<w:br/>", "<w:drawing><a:x v=\"1\"/></w:drawing>", "<w:footnoteReference w:id=\"2\"/>", "<w:noBreakHyphen/>", "<w:sym w:char=\"F0\"/>"]
    def run(hard):
        if r.random() < hard:
            parts = [r.choice([t(), r.choice(EXTRA)]) for _ in range(r.randint(0, 3))]
            return "<w:r>%s%s</w:r>" % (rpr(), "".join(parts))
        return "<w:r>%s%s</w:r>" % (rpr(), t())
    def par(d, hard):
        out = []
        if r.random() < .3: out.append("<w:pPr><w:jc w:val=\"both\"/></w:pPr>")
        for _ in range(r.randint(0, 7)):
            x = r.random()
            if x < .75: out.append(run(hard))
            elif x < .85: out.append(r.choice(["<w:proofErr w:type=\"spellStart\"/>", "<w:bookmarkStart w:id=\"%d\"/>" % r.randint(0, 9), "<w:bookmarkEnd w:id=\"%d\"/>" % r.randint(0, 9)]))
            elif r.random() < hard * 4 + .1:
                y = r.random()
                if y < .35: out.append("<w:hyperlink w:id=\"%d\">%s</w:hyperlink>" % (r.randint(0, 9), "".join(run(0) for _ in range(r.randint(1, 3)))))
                elif y < .5: out.append("<w:ins w:id=\"1\">%s</w:ins>" % run(0))
                elif y < .6: out.append("<m:oMath><m:r><m:t>x+y</m:t></m:r></m:oMath>")
                elif y < .8 and d: out.append("<w:r><mc:AlternateContent><mc:Choice>%s</mc:Choice><mc:Fallback>%s</mc:Fallback></mc:AlternateContent></w:r>" % (par(d-1, hard), par(d-1, hard)))
                else: out.append("<w:r>%s</w:r>" % r.choice(EXTRA))
        return "<w:p>%s</w:p>" % "".join(out)
    hard = r.choice([0, 0, .05, .3])
    sep = r.choice(["", "", "\n", "\n  "])
    body = []
    for _ in range(r.randint(1, 6)):
        body.append(par(1, hard) if r.random() < .85 else "<w:tbl><w:tr><w:tc>%s</w:tc></w:tr></w:tbl>" % par(1, hard))
    doc = '<?xml version="1.0" encoding="UTF-8"%s?>%s<w:document%s>%s<w:body>%s</w:body></w:document>' % (
        r.choice(["", ' standalone="yes"']), r.choice(["\n", "\r\n", "", "\n<!-- c -->\n"]), NSDECL, sep, sep.join(body))
    return doc

def compare(src, out, c, files):
    try: a = ET.fromstring(src.encode())
    except ET.ParseError: raise RuntimeError("generator: " + src)
    try: b = ET.fromstring(out)
    except ET.ParseError as e:
        c.violation("malformed", "output is not well-formed: %s" % e, **files); return
    pa, pb = paragraphs(a), paragraphs(b)
    if [x[0] for x in pa] != [x[0] for x in pb]:
        c.violation("structure", "paragraph structure changed: %d -> %d" % (len(pa), len(pb)), **files); return
    for (path, _, (ia, sa)), (_, _, (ib, sb)) in zip(pa, pb):
        ta = [x[1] if x[0] == "c" else x[1] for x in ia if x[0] != "|"]
        tb = [x[1] if x[0] == "c" else x[1] for x in ib if x[0] != "|"]
        show = lambda t: "".join(x if isinstance(x, str) else "<%s>" % x[0] for x in t)
        if ta != tb:
            c.violation("text", "paragraph %s read\n %r\nand now reads\n %r" % (path, show(ta), show(tb)), **files); return
        if sa != sb:
            c.violation("markers", "markers of a paragraph changed: %r -> %r" % (sa, sb), **files); return
        ea = adapted(ia); eb = [x for x in ib if x[0] != "|"]
        moved = 0
        for k, (x, y) in enumerate(zip(ea, eb)):
            if x[0] == "c":
                if y[2] not in x[2]:
                    c.violation("format", "character %d (%r) of %r has format %r, expected %r\n was %s" % (k, x[1], show(ta), y[2], x[2], [i[1] + str(i[3]) for i in ia if i[0] == "c"]), **files); return
                moved += 1
            elif x != y:
                c.violation("element", "element %r became %r" % (x, y), **files); return
        # no run boundary left inside a word
        i = 0
        while i < len(ib):
            j = i
            while j < len(ib) and ib[j][0] == "c": j += 1
            t = [x[1] for x in ib[i:j]]
            for k in range(1, len(t)):
                if ib[i+k][3] != ib[i+k-1][3]:
                    c.ev("run_boundaries")
                    if glued(t, k):
                        c.violation("split", "a run boundary stays inside a word: %r | %r" % ("".join(t[:k]), "".join(t[k:])), **files); return
            i = max(j, i + 1)
        if any(x[0] == "c" and y[2] != z[2] for x, y, z in zip(ea, [q for q in ia if q[0] != "|"], eb)): c.ev("paragraphs_with_moved_format")
        c.ev("paragraphs"); c.ev("characters", moved); c.seen(show(ta))

def main_(chk):
    ad = chk.build(["apertium-adapt-docx"])["apertium-adapt-docx"]
    def case(r, i, c):
        d = scratch()
        docs = [gen(r) for _ in range(8)]
        names = []
        for k, x in enumerate(docs):
            n = os.path.join(d, "part%d.xml" % k); names.append(n)
            with open(n, "wb") as f: f.write(x.encode())
        pretty = r.random() < .1
        named = r.random() < .5
        res = run([ad] + (["-n"] if named else []) + (["-p"] if pretty else []), r.choice([" ", "\n"]).join(names) + "\n")
        files = {"docs": "\n\n".join(docs), "out": res.out}
        if c.san(res, **files): return
        if res.rc or not res.out.endswith(b"\0"):
            c.violation("fail", "exit %d, %r" % (res.rc, res.err[:300]), **files); return
        outs = res.out[:-1].decode("utf8")
        pieces = []
        if named:
            for k, n in reversed(list(enumerate(names))):
                m = '<file name="%s"/> ' % n
                if outs.count(m) != 1: c.violation("name", "file name marker missing for %s" % n, **files); return
                outs, p = outs.split(m); pieces.insert(0, p)
            if outs.strip(): c.violation("name", "text before the first file: %r" % outs, **files); return
        else:
            pieces = re.split(r"(?=<\?xml )", outs)[1:]
            if len(pieces) != len(docs): c.violation("name", "%d documents for %d files" % (len(pieces), len(docs)), **files); return
        for n, x, p in zip(names, docs, pieces):
            if not pretty and "\n" in p.rstrip("\n"):
                c.violation("lines", "a document takes more than one line: %r" % p[:300], **files); return
            before = len(c.viol)
            c.evals += 1
            compare(x, p.strip().encode(), c, {"doc.xml": x, "out.xml": p})
            if len(c.viol) > before: break
        # -f gives the same
        if r.random() < .3:
            k = r.randrange(len(docs))
            f1 = run([ad, "-f", names[k]] + (["-p"] if pretty else []))
            if not c.san(f1, **files) and f1.out[:-1].decode("utf8").rstrip("\n") != pieces[k].rstrip("\n"):
                c.violation("dash-f", "-f gives a different result\n%s" % diff(pieces[k], f1.out.decode("utf8")), **files)
            # adapting again changes nothing
            if not pretty and not c.viol:
                n2 = os.path.join(d, "again.xml")
                with open(n2, "wb") as f: f.write(f1.out[:-1])
                f2 = run([ad, "-f", n2])
                if not c.san(f2, **files) and f2.out[:-1].split() != f1.out[:-1].split():
                    c.violation("again", "adapting an adapted document changes it\n%s" % diff(dec(f1.out), dec(f2.out)), **files)
                c.ev("adapted_again")
        c.sample({"doc": docs[0][:300]})
    chk.run_cases(case, chk.n(260, 6000))
    chk.min_evals = 500

if __name__ == "__main__":
    main(main_, "F04", "a paragraph counts when its text, marks and run formats were compared with the original's; distinct = distinct paragraph contents (text and marks)",
         ["document parts are UTF-8", "line breaks inside text count as spaces", "which run an empty text element belongs to is free"])
