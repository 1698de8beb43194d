"""V01: the validators accept every correct file and report structural errors."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from chk import *
import trx, caps, tag, fmtgen, M02, re, copy
import build as B
import xml.etree.ElementTree as ET

def main_(chk):
    mk = open(os.path.join(B.AP, "Makefile.am"), encoding="utf8").read()
    hd = open(os.path.join(B.AP, "validate-header.sh"), encoding="utf8").read()
    S = {}
    for n in ("transfer", "interchunk", "postchunk", "tagger", "modes", "crx"):
        # the script the Makefile makes, with the DTDs of this tree
        m = re.search(r"^apertium-validate-%s:.*\n((?:\t.*\n)+)" % n, mk, re.M)
        d = re.search(r"--dtdvalid .*?/(\w+\.dtd)", m.group(1)).group(1)
        p = os.path.join(chk.base, "apertium-validate-" + n)
        with open(p, "w") as f: f.write("#!/usr/bin/env bash\n" + hd + 'xmllint --dtdvalid "%s" --noout "$FILE1"\n' % os.path.join(B.AP, d))
        S[n] = p
    S["format"] = os.path.join(chk.base, "format")
    with open(S["format"], "w") as f: f.write('xmllint --dtdvalid "%s" --noout "$1"\n' % os.path.join(B.AP, "format.dtd"))
    def make(r, k):
        if k in ("transfer", "interchunk", "postchunk"): return trx.to_xml(trx.Gen(r, k).prog)
        if k == "tagger": return tag.TagDef(r).xml()
        if k == "crx": return caps.to_xml(caps.gen_rules(r))
        if k == "format": return fmtgen.xml(fmtgen.spec(r, 0))
        while True:
            m = M02.gen(r)
            if all(re.fullmatch(r"[A-Za-z_][\w.-]*", x[0]) for x in m): return M02.xml(r, m).replace('<!DOCTYPE modes SYSTEM "modes.dtd">', "")
    # attributes without which an element means nothing, and elements which are needed
    NEED = {"transfer": [("def-attr", "n"), ("def-cat", "n"), ("clip", "pos"), ("clip", "part"), ("lit", "v"), ("lit-tag", "v"), ("call-macro", "n"), ("pattern-item", "n"), ("var", "n"), ("def-var", "n"), ("def-list", "n"), ("with-param", "pos")],
            "tagger": [("def-label", "name"), ("tags-item", "tags"), ("label-item", "label"), ("tagger", "name")],
            "modes": [("mode", "name"), ("program", "name"), ("file", "name"), ("arg", "name")],
            "crx": [("match", None)], "format": [("format-rule", "priority"), ("tag", "regexp"), ("begin", "regexp"), ("replace", "source"), ("largeblocks", "size")]}
    PART = {"transfer": [("rule", "pattern"), ("rule", "action"), ("choose", "when"), ("when", "test"), ("transfer", "section-rules")],
            "tagger": [("def-mult", "sequence"), ("tagger", "tagset")], "modes": [("mode", "pipeline"), ("pipeline", "program")],
            "crx": [], "format": [("format", "rules"), ("format-rule", "tag"), ("format", "options"), ("options", "escape-chars")]}
    for k in ("interchunk", "postchunk"): NEED[k], PART[k] = NEED["transfer"], [p if p[0] != "transfer" else (k, p[1]) for p in PART["transfer"]]
    def damage(r, k, src):
        """-> (what, xml) or None"""
        t = ET.fromstring(src.encode()); els = list(t.iter()); x = r.choice(["element", "attribute", "inside", "need", "need", "part", "part", "text", "cut"])
        e = r.choice(els)
        if x == "element":
            o = e.tag; e.tag = r.choice([o + "x", "x" + o, o.upper(), "foo"])
            what = "<%s> for <%s>" % (e.tag, o)
        elif x == "attribute": e.set("nosuch", "1"); what = "attribute nosuch in <%s>" % e.tag
        elif x == "inside": e.insert(r.randint(0, len(e)), ET.Element("foo")); what = "<foo> in <%s>" % e.tag
        elif x == "need":
            n, a = r.choice(NEED[k]); c = [q for q in els if q.tag == n and a in q.attrib]
            if not c: return None
            del r.choice(c).attrib[a]; what = "<%s> without %s" % (n, a)
        elif x == "part":
            if not PART[k]: return None
            p, ch = r.choice(PART[k]); c = [q for q in els if q.tag == p and q.find(ch) is not None]
            if not c: return None
            q = r.choice(c)
            for z in q.findall(ch): q.remove(z)
            what = "<%s> without <%s>" % (p, ch)
        elif x == "text":
            c = [q for q in els if len(q)]
            r.choice(c).text = "words"; what = "text between elements"
        else:
            s = ET.tostring(t, encoding="unicode"); return "file cut short", s[:r.randint(1, len(s) - 1)].rstrip()
        return what, ET.tostring(t, encoding="unicode")
    KIND = sorted(S)
    def case(r, i, c):
        k = KIND[i % len(KIND)]; src = make(r, k); f = os.path.join(scratch(), r.choice(["a.xml", "a b.xml"]))
        def val(t):
            with open(f, "w", encoding="utf8") as h: h.write(t)
            c.evals += 1; return run(["bash", S[k], f], b"")
        x = val(src)
        if x.rc or x.err.strip(): c.violation("refused-" + k, "a correct file is refused: %r" % x.err[:500], source=src); return
        c.ev("accepted_" + k); c.seen(src)
        for _ in range(3):
            d = damage(r, k, src)
            if not d: continue
            x = val(d[1])
            if x.rc == 0: c.violation("accepted-" + k, "%s is not reported" % d[0], source=d[1]); return
            if not x.err.strip(): c.violation("silent-" + k, "%s: nothing said" % d[0], source=d[1]); return
            c.ev("refused_" + k)
        if i % 40 < len(KIND) and k != "format":
            os.unlink(f); x = run(["bash", S[k], f], b""); c.evals += 1
            if x.rc == 0: c.violation("missing-" + k, "a missing file is not reported"); return
            x = run(["bash", S[k]], b""); c.evals += 1
            if x.rc == 0 or not x.out + x.err: c.violation("usage-" + k, "a call without arguments is not reported"); return
        if i < len(KIND): c.sample({"kind": k, "source": src[:200]})
    # the formats of the package themselves
    def shipped(r, i, c):
        for f in sorted(os.listdir(B.AP)):
            if f.endswith("-format.xml"):
                x = run(["bash", S["format"], os.path.join(B.AP, f)], b""); c.evals += 1
                if x.rc: c.violation("shipped-" + f, "%s: %r" % (f, x.err[:400]))
                c.ev("shipped"); c.seen(f)
    chk.run_cases(shipped, 1, "shipped")
    chk.run_cases(case, chk.n(700, 14000))
    chk.min_evals = 1500
if __name__ == "__main__": main(main_, "V01", "one case = one generated rule, tagger, mode, capitalisation or format file (the files other checks run the programs on), which the validator must accept silently, and three damaged versions of it (unknown element or attribute, missing required attribute or part, stray text, truncation), which it must report with a failure exit",
     ["the validators for dictionaries and .acx files use schemas of another package and are not run"])
