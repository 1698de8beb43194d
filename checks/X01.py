"""X01: TMX building conserves the aligned text and is well-formed."""
import os, sys, unicodedata
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *

PH = "\ue000"            # stands for <ph/>
def units(text):
    """Sentences of an unformatted document (after the last one, unfinished text is not one)."""
    res = []; cur = ""; i = 0; n = len(text)
    while i < n:
        ch = text[i]; i += 1
        if ch == "\\":
            if i < n: cur += text[i]; i += 1
        elif ch == "[":
            j = i
            while j < n and text[j] != "]": j += 2 if text[j] == "\\" else 1
            b = text[i-1:j+1]; i = j + 1
            if b.startswith("[ "): cur += " "
            cur += PH
            if b.endswith(" ]"): cur += " "
        else:
            cur += ch
            if ch in "?!" or ch == "." and i < n and (text[i] == "[" or text[i].isspace()):
                res.append(cur); cur = ""
    return res

def word(ch): return ch in "<>" or unicodedata.category(ch)[0] in "LP" or unicodedata.category(ch) == "Nd"
def trim(s):
    """A segment: without blanks, symbols and formatting at its ends and full stops at its end."""
    while s and not word(s[0]): s = s[1:]
    while s and not word(s[-1]): s = s[:-1]
    return re.sub(r"[ \t\n\x0b\f\r]+", " ", s.rstrip(".")).rstrip(" ")
def norm(s): return s and re.sub(r"[ \t\n\x0b\f\r]+", " ", s).rstrip(" ")
def kept(s):
    """Segments without letters, or with less than three spaces between words, are left out."""
    t = s.replace(PH, "<ph/>")
    k = next((i for i, ch in enumerate(t) if ch.isalpha()), None)
    return k is not None and sum(ch in " \t\n\r\x0b\x0c\x85\u2028\u2029" or unicodedata.category(ch) == "Zs" for ch in t[k:]) > 2

def segtext(seg):
    s = seg.text or ""
    for e in seg:
        if e.tag != "ph" or len(e) or e.text: return None
        s += PH + (e.tail or "")
    return s

def place(segs, us):
    """Every segment is a run of consecutive sentences, all in order: None or the first that is not."""
    pos = 0; used = []
    for s in segs:
        best = None
        for a in range(pos, len(us)):
            t = us[a]
            for b in range(a + 1, min(len(us), a + 40) + 1):
                if b > a + 1: t += " " + us[b-1]
                if trim(t) == s and kept(t) and (best is None or b < best): best = b
                if len(trim(t)) > len(s) + 20: break
            if best is not None and a + 1 >= best: break
        if best is None: return s, used
        used.append(best); pos = best
    return None, used

def gen_text(r, n, lang):
    W = {"a": ["house", "tree", "the", "of", "River", "one", "x", "2024", "3.5", "Smith", "<b>", "AT&T", "\"so\"", "it's", "naïve", "[sic]", "{z}", "^w$", "a/b", "\\", "😀", "漢字", "@", "€5", "no-one", "e.g", "…", "𐌰𐌱"],
         "b": ["casa", "árbol", "el", "de", "Río", "uno", "x", "2024", "3.5", "Smith", "<i>", "AT&T", "«sí»", "l'ull", "ñu", "[sic]", "{z}", "^w$", "a/b", "\\", "😀", "漢字", "@", "€5", "l·l", "p.ej", "…", "𐌰𐌱"]}[lang]
    idx = []
    for _ in range(n):
        k = 0 if r.random() < .04 else r.randint(1, r.choice([3, 8, 14]))
        idx.append(([r.randrange(len(W)) for _ in range(k)], r.choice([".", ".", ".", ".", "!", "?", "...", "?!", ":"]), r.choice([" ", " ", "\n", "\n\n", "  ", "\t", " \n "])))
    return idx, W
def render(idx, W):
    return "".join(" ".join(W[k] for k in ks) + e + s for ks, e, s in idx)

def main_(chk):
    P = chk.build(["apertium-tmxbuild", "apertium-destxt"])
    TMX, DES = P["apertium-tmxbuild"], P["apertium-destxt"]
    def unformat(text, c):
        r = run([DES], text)
        if c.san(r, text=text): return None
        return r.out
    def case(r, i, c):
        mode = r.choice(["self", "self", "parallel", "parallel", "unrelated", "raw"])
        n = r.choice([0, 1, 2, 5, 20, 60]) if r.random() < .9 else r.randint(100, 700)
        ia, WA = gen_text(r, n, "a")
        if mode == "self": ib, WB = ia, WA
        elif mode == "unrelated": ib, WB = gen_text(r, r.choice([0, 1, n // 8, n, 3 * n]), "b")
        else:
            WB = gen_text(r, 0, "b")[1]; ib = []
            for k, s in enumerate(ia):
                x = r.random()
                if x < .06: continue
                if x < .12 and ib: ib[-1] = (ib[-1][0] + s[0], s[1], s[2]); continue
                if x < .18 and len(s[0]) > 3: ib.append((s[0][:2], ".", " ")); ib.append((s[0][2:], s[1], s[2])); continue
                if x < .24: ib.append(gen_text(r, 1, "b")[0][0])
                ib.append(s)
        ta, tb = render(ia, WA), render(ib, WB)
        d = scratch(); fa, fb, fo = (os.path.join(d, x) for x in ("a.txt", "b.txt", "o.tmx"))
        if mode == "raw":
            ua, ub = [re.sub(r"[\^$@{}/\\<>\[\]~]|\s+", lambda m: " " if m.group().isspace() else "\\" + m.group(), t).encode() for t in (ta, tb)]
        else:
            ua, ub = unformat(ta, c), unformat(tb, c)
            if ua is None or ub is None: return
        for f, x in ((fa, ua), (fb, ub)):
            with open(f, "wb") as h: h.write(x)
        l1, l2 = r.choice([("en", "es"), ("eng", "spa"), ("sr_Latn", "kaz"), ("a", "b")])
        opts = []
        for o, v in (("-p", ".5"), ("-e", "1"), ("-l", "0"), ("-m", "10"), ("-d", "2"), ("-w", "20"), ("-s", "15")):
            if r.random() < .05: opts += [o, v]
        toout = r.random() < .3
        if os.path.exists(fo): os.unlink(fo)
        res = run([TMX] + opts + [l1, l2, fa, fb] + ([fo] if toout else []))
        files = {"a.txt": ua, "b.txt": ub, "out.tmx": res.out, "cmd": " ".join(res.cmd)}
        if c.san(res, **files): return
        if res.rc: c.violation("fail", "exit %d: %r" % (res.rc, res.err[:300]), **files); return
        out = res.out
        if toout:
            if out: c.violation("stdout", "writes to standard output as well", **files)
            out = open(fo, "rb").read() if os.path.exists(fo) else b""
            files["out.tmx"] = out
        try: root = ET.fromstring(out)
        except ET.ParseError as e: c.violation("malformed", "not well-formed: %s" % e, **files); return
        hd = root.find("header"); body = root.find("body")
        if root.tag != "tmx" or root.get("version") != "1.4" or [x.tag for x in root] != ["header", "body"] or len(hd) or hd.get("srclang") != l1 \
           or not all(hd.get(k) for k in ("creationtool", "creationtoolversion", "segtype", "o-tmf", "adminlang", "datatype")):
            c.violation("tmx", "not a TMX 1.4 document", **files); return
        A, B = units(ua.decode()), units(ub.decode())
        left, right = [], []
        for tu in body:
            LANG = "{http://www.w3.org/XML/1998/namespace}lang"
            if tu.tag != "tu" or [x.tag for x in tu] != ["tuv", "tuv"] or [x.get(LANG) for x in tu] != [l1, l2] or [[y.tag for y in x] for x in tu] != [["seg"], ["seg"]]:
                c.violation("tu", "bad translation unit %r" % ET.tostring(tu, "unicode")[:300], **files); return
            a, b = norm(segtext(tu[0][0])), norm(segtext(tu[1][0]))
            if a is None or b is None: c.violation("tu", "bad segment %r" % ET.tostring(tu, "unicode")[:300], **files); return
            left.append(a); right.append(b)
        c.evals += 1; c.ev("units", len(left)); c.ev("sentences", len(A) + len(B)); c.ev("mode_" + mode)
        for side, segs, us, f in (("left", left, A, ua), ("right", right, B, ub)):
            bad, used = place(segs, us)
            if bad is not None:
                c.violation("segment-" + side, "segment %d %r is no run of sentences of the %s text after those before it\n%r" % (len(used), bad, side, us[(used or [0])[-1]:][:6]), **files); return
        if mode == "self":
            want = [trim(x) for x in A if kept(x)]
            if left != right or left != want:
                k = next((k for k, (x, y, z) in enumerate(zip(left + [None], right + [None], want + [None])) if not x == y == z), min(len(left), len(want)))
                c.violation("self", "a text aligned with itself: %d units, expected %d; unit %d is %r = %r, expected %r" % (len(left), len(want), k, left[k:k+1], right[k:k+1], want[k:k+1]), **files); return
            c.ev("self_units", len(want))
        for a, b in zip(left, right): c.seen((a, b))
        if left: c.sample({"left": left[0][:120], "right": right[0][:120], "mode": mode})
    chk.run_cases(case, chk.n(220, 4000))
    chk.min_evals = 100

if __name__ == "__main__":
    main(main_, "X01", "a TMX file counts when all its segments were located in the two texts; distinct = distinct (left, right) segment pairs",
         ["documents are plain text unformatted by apertium-destxt (or raw text with escapes), valid UTF-8 without control characters, ending in a finished sentence",
          "which sentences are paired is the aligner's choice, except when a text is aligned with itself"])
