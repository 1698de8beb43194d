"""Dictionary and rule-file preparation scripts: running them from the current
tree, XML trees in a comparable form, and generators."""
import os, shutil, sys
import xml.etree.ElementTree as ET
from core import *
import core

SC = os.path.join(REPO, "scripts")
ENV = dict(core.ENV, PYTHONDONTWRITEBYTECODE="1")

def script(chk, name):
    """A runnable copy of a script (data directory filled in)."""
    d = os.path.join(chk.base, "share"); os.makedirs(os.path.join(d, "apertium"), exist_ok=True)
    src = os.path.join(SC, name)
    if os.path.exists(src + ".in"):
        t = open(src + ".in").read().replace("@datarootdir@", d)
        for f in os.listdir(SC):
            if f.endswith(".xslt"): shutil.copy(os.path.join(SC, f), os.path.join(d, "apertium"))
    else: t = open(src).read()
    p = os.path.join(chk.base, name)
    with open(p, "w") as f: f.write(t)
    os.chmod(p, 0o755)
    return p

def el(tag, attrs=None, *kids):
    e = ET.Element(tag, {k: v for k, v in (attrs or {}).items() if v is not None})
    last = None
    for k in kids:
        if isinstance(k, str):
            if last is None: e.text = (e.text or "") + k
            else: last.tail = (last.tail or "") + k
        else: e.append(k); last = k
    return e
def text(e): return '<?xml version="1.0" encoding="UTF-8"?>\n' + ET.tostring(e, encoding="unicode")
def ws(s): return s if s and s.strip(" \t\r\n") else ""
def tree(e):
    """Comparable form; white space between elements does not count."""
    return (e.tag, tuple(sorted(e.attrib.items())), ws(e.text), tuple((tree(k), ws(k.tail)) for k in e if isinstance(k.tag, str)))
def show(t, ind=0):
    return "%s<%s%s>%r\n" % (" " * ind, t[0], "".join(' %s=%r' % a for a in t[1]), t[2]) + "".join(show(k, ind + 1) + (" " * ind + repr(w) + "\n" if w else "") for k, w in t[3])
def read(b): return tree(ET.fromstring(b))
def spread(r, s):
    """White space and comments where a person would put them."""
    if r.random() < .5: s = s.replace("><e", ">\n    <e").replace("><rule", ">\n  <rule")
    if r.random() < .3: s = s.replace("<e>", "<!-- a < b & c --><e>", 2)
    return s

TXT = ["a", "b", "casa", "é", "ñ語", "x<y", "R&D", "it's", 'say "no"', "e]]>f", "A", "𐐀", "#"]
def word(r): return "".join(r.choice(TXT) for _ in range(r.choice([1, 1, 2])))
def side(r, tag):
    k = [word(r)]
    if r.random() < .3: k += [el("b"), word(r)]
    if r.random() < .2: k.append(el("g", None, el("b"), word(r)))
    if r.random() < .2: k += [el("j"), word(r)]
    if r.random() < .1: k.insert(0, el("a"))
    k += [el("s", {"n": s}) for s in r.sample(["n", "sg", "vblex", "p3", "m"], r.choice([0, 1, 1, 2]))]
    if r.random() < .1: k.append(word(r))
    return el(tag, None, *k)
def body(r):
    k = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        x = r.random()
        if x < .45: k.append(el("p", None, side(r, "l"), side(r, "r")))
        elif x < .65: k.append(side(r, "i"))
        elif x < .85: k.append(el("par", {"n": r.choice(["casa__n", "a/b__vblex", "ñ"])}))
        else: k.append(el("re", None, r.choice(["[0-9]+", "[^a-z]<", "a&b"])))
    return k
def dictionary(r, entry):
    """entry(r, attributes of the entry's place) -> e element"""
    k = [el("alphabet", None, "abcñ語")]
    if r.random() < .8: k.append(el("sdefs", None, *[el("sdef", {"n": s}) for s in ("n", "sg", "vblex", "p3", "m")]))
    if r.random() < .7: k.append(el("pardefs", None, *[el("pardef", {"n": n}, *[entry(r) for _ in range(r.choice([1, 2, 4]))]) for n in r.sample(["casa__n", "a/b__vblex", "ñ"], r.choice([1, 2]))]))
    for i, t in r.sample([("main", "standard"), ("final", "inconditional"), ("post", "postblank")], r.choice([1, 1, 2])):
        k.append(el("section", {"id": i, "type": t}, *[entry(r) for _ in range(r.choice([0, 1, 3, 10]))]))
    return el("dictionary", None, *k)

def compare(c, key, out, want, files):
    """out: bytes of the result; want: tree"""
    try: got = read(out)
    except ET.ParseError as e: c.violation(key, "the result is not XML (%s): %r" % (e, out[:300]), stdout=out, **files); return False
    if got != want:
        c.violation(key, "the result differs\n" + diff(show(want), show(got)), stdout=out, **files); return False
    return True
def diff(a, b):
    import difflib
    return "\n".join(list(difflib.unified_diff(a.splitlines(), b.splitlines(), "expected", "observed", lineterm="", n=2))[:40])
