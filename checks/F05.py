"""F05: a format specification is turned into programs that implement it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *
import fmt, fmtgen, re, random
import xml.etree.ElementTree as ET
import build as B
from concurrent.futures import ThreadPoolExecutor

def main_(chk):
    n = chk.n(16, 120)
    specs = []
    for k in range(n):
        s = fmtgen.spec(random.Random("%s/%d" % (SEED, k)), k); s.xml = fmtgen.xml(s); specs.append(s)
    jobs = [(s, k) for j, s in enumerate(specs) for k in ("des", "re") + (("mtx",) if j % 3 == 0 else ())]
    def go(j):
        s, k = j
        try: return fmtgen.make(s, k, chk.base)
        except B.BuildError as e: return e
    with ThreadPoolExecutor(max_workers=8) as ex: res = list(ex.map(go, jobs))
    P = {(s.name, k): x for (s, k), x in zip(jobs, res)}
    def load(p):
        if not re.fullmatch(r"/tmp/file[A-Za-z0-9]{6}", p): raise ValueError("superblank file %r" % p)
        with open(p, "rb") as f: s = f.read()
        return s.decode("utf8")
    def matxin(r, s, c):
        """Matxin mode: text on the output, format in a file of its own."""
        exe = P[s.name, "mtx"]
        if isinstance(exe, Exception): c.violation("generate-matxin", "no deformatter (matxin mode) can be made from a valid specification: %s" % str(exe)[-700:], spec=s.xml); return
        doc = fmtgen.document(r, s, r.choice([1, 3, 6, 15])); ff = os.path.join(scratch(), "fmt")
        x = run([exe, ff], enc(doc)); c.evals += 1
        fl = dict(spec=s.xml, doc=doc, observed=x.out)
        if c.san(x, **fl): return
        try: t = ET.fromstring(open(ff, "rb").read())
        except (OSError, ET.ParseError) as e: c.violation("matxin-xml", "the format file is not XML: %s" % e, format=open(ff, "rb").read(), **fl); return
        out = [ch for ch in dec(x.out) if ch != "\n"]    # offsets do not count the line ends added after sentences
        if all(ord(ch) < 0x10000 for ch in doc):
            for e in t.iter("empty-tag"):
                o = int(e.get("offset"))
                if not (0 <= o < len(out)) or out[o] != ".": c.violation("matxin-offset", "an added full stop is said to be at %d of %r" % (o, "".join(out)), **fl); return
                out[o] = ""
            got, i = [], 0
            out = "".join(out)
            while i < len(out):
                if out[i] == "\\" and i + 1 < len(out): i += 1
                got.append(out[i]); i += 1
            text = "".join(v for k, _, v in lexs(s, doc) if k in "tr")
            N = lambda z: re.sub(r"[ \n\t\r]", "", z)
            if N("".join(got)) != N(text) and not set(s.sp[4:]) & set("".join(got)):
                c.violation("matxin-text", "expected text %r\nobserved %r" % (text[:400], "".join(got)[:400]), **fl); return
            marks = "".join((e.text or "").replace("\\]\\]\\>", "]]>") for e in t.iter() if e.tag in ("format-tag", "open-tag", "close-tag"))
            want = "".join(src for k, src, v in lexs(s, doc) if k not in "tr")
            if sorted(N(marks + "".join(ch for ch in got if ch in s.sp))) != sorted(N(want)):
                c.violation("matxin-format", "the format file does not keep the markup\nexpected %r\nobserved %r" % (want[:400], marks[:400]), **fl); return
        c.ev("matxin"); c.seen((s.name, "m", doc))
    def lexs(s, doc): return fmtgen.lexer(s)(doc)
    def case(r, i, c):
        if (i % n) % 3 == 0 and r.random() < .3: matxin(r, specs[i % n], c); return
        s = specs[i % n]; des, re_ = P[s.name, "des"], P[s.name, "re"]
        for k, x in (("deformatter", des), ("reformatter", re_)):
            if isinstance(x, Exception):
                c.violation("generate-" + k, "no %s can be made from a valid specification: %s" % (k, str(x)[-700:]), spec=s.xml); return
        lex = fmtgen.lexer(s)
        doc = fmtgen.document(r, s, r.choice([1, 3, 6, 15, 40]))
        o = {k: r.random() < .2 for k in "ino"}
        x = run([des] + ["-" + k for k in "ino" if o[k]], enc(doc)); c.evals += 1
        fl = dict(spec=s.xml, doc=doc, options=str(o), observed=x.out)
        if c.san(x, **fl): return
        # a replacement stands for its characters
        pieces = []; vis_rep = False
        for k, src, v in lex(doc):
            if k == "r":
                for j, ch in enumerate(v): pieces.append(("t", src if j == 0 else "", ch))
            else: pieces.append((k, src, v))
        want = fmt.model(pieces, **o)
        try: got = fmt.read_stream(x.out.decode("utf8"), o["n"], load)
        except (ValueError, OSError) as e: c.violation("malformed", "%s: %r" % (e, dec(x.out)[:600]), **fl); return
        if o["n"]:
            w2 = []
            for u in want:
                if not (u == ("dot", "") and w2 and w2[-1] == ("char", ".")): w2.append(u)
            want = w2
        if want != got:
            k = next((k for k in range(min(len(want), len(got))) if want[k] != got[k]), min(len(want), len(got)))
            c.violation("units", "%s\nunit %d\nexpected %r\nobserved %r" % (o, k, want[max(0, k-3):k+5], got[max(0, k-3):k+5]), **fl); return
        for k, _ in want: c.ev(k)
        # and back
        y = run([re_], x.out); c.evals += 1
        if c.san(y, **fl): return
        exp = "".join(v if k == "t" and v is not None and src != v else src for k, src, v in pieces)
        exp = "".join("".join(s.back.get(ch, ch) for ch in v) if k == "t" else src for k, src, v in pieces)
        if o["o"]: exp2 = dec(y.out).replace("❡", "")
        else: exp2 = dec(y.out)
        if exp2 != exp:
            c.violation("roundtrip", "%s\nexpected %r\nobserved %r" % (o, exp[:500], exp2[:500]), back=y.out, **fl); return
        c.ev("big_blank", "[@" in dec(x.out)); c.ev("docs"); c.seen((s.name, doc))
        if i < 20: c.sample({"format": s.name, "document": doc[:100], "stream": dec(x.out)[:140]})
    chk.run_cases(case, chk.n(1600, 24000)); chk.min_evals = 1500
if __name__ == "__main__": main(main_, "F05", "one case = one document through the deformatter and reformatter generated (xsltproc, flex, compiler) from one random format specification: the stream must read back as what a lexer over the same rules says (longest match, then rule order; priorities inside comments), and reformatting must give the document back with replacements in their preferred form; distinct by format and document",
     ["begin patterns of different rules differ", "characters which the reformatter writes as an entity do not occur as such", "replacement targets are not reserved characters", "documents are valid UTF-8"])
