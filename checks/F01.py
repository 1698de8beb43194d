"""F01: deformat | reformat gives the document back."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *
import fmt, re, glob

RE = {"html-noent": "html-noent", "html-alt": "html-noent"}
def pair(f):
    return "apertium-des" + f, "apertium-re" + RE.get(f, f)
def cleanup(stream):
    for m in re.finditer(rb"\[@(/tmp/file[A-Za-z0-9]{6})\]", stream):
        try: os.unlink(m.group(1))
        except OSError: pass
def main_(chk):
    fs = list(fmt.F)
    exes = chk.build(sorted({p for f in fs for p in pair(f)}))
    def case(r, i, c):
        f = fs[i % len(fs)]
        if r.random() < .55: doc = "".join(p[1] for p in fmt.document(r, f, r.choice([1, 3, 8, 25, 60])))
        else: doc = fmt.soup(r, f, r.choice([1, 2, 4, 8, 20, 60]))
        if not doc: return
        data = enc(doc); de, re_ = (exes[x] for x in pair(f))
        opts = [o for o in ("-i", "-n") if r.random() < .25]
        files = r.random() < .12
        if files:
            a, b, d = (os.path.join(scratch(), x) for x in ("a", "b", "d"))
            for q in (b, d): open(q, "wb").close()
            open(a, "wb").write(data)
            x = run([de] + opts + [a, b]); mid = open(b, "rb").read()
        else: x = run([de] + opts, data); mid = x.out
        c.evals += 1
        if c.san(x, format=f, doc=data): cleanup(mid); return
        if files: y = run([re_, b, d]); y.out = open(d, "rb").read()
        else: y = run([re_], mid)
        c.ev("bytes", len(data)); c.ev("files_for_long_blanks", mid.count(b"[@/tmp/file")); c.ev("docs_" + f)
        cleanup(mid)
        if c.san(y, format=f, doc=data, stream=mid): return
        try: out = y.out.decode("utf8")
        except UnicodeDecodeError: c.violation("utf8-" + f, "not UTF-8: %r" % y.out[:300], format=f, doc=data, stream=mid); return
        if out != doc:
            n1, n2 = fmt.normalise(f, doc), fmt.normalise(f, out)
            if n1 != n2: c.violation("roundtrip-" + f, "%s %s\n%s" % (f, opts, diff(n1, n2)), format=f + " " + " ".join(opts), doc=data, stream=mid, observed=out); return
            c.ev("respelled")
        if len(doc) > 3: c.seen((f, doc))
        if i < 60: c.sample({"format": f, "options": opts, "document": doc[:150]})
    chk.run_cases(case, chk.n(2600, 60000)); chk.min_evals = 2000
    def probe(r, i, c):
        # an escaped letter must still be a character an RTF reader understands
        doc = b"{\\rtf1\\ansi caf\\'e9}"
        de, re_ = (exes[x] for x in pair("rtf"))
        x = run([de], doc); y = run([re_], x.out); c.evals += 1
        if y.out != doc: c.violation("rtf-8bit", "RTF escapes are not written back: %r -> %r" % (doc, y.out), doc=doc)
    chk.one(probe)
if __name__ == "__main__": main(main_, "F01", "one case = one random document of one of eleven formats (structured documents, or arbitrary sequences of markup fragments and reserved characters) through the deformatter with random options and the reformatter; the result must be the document, except that an escaped character may come back as the character; distinct by format and document",
     ["documents are valid UTF-8 without NUL", "a re-spelled character is recognised by Python's HTML entity table (HTML and XML formats) and code page 1252 (RTF)"])
