"""M03: the apertium driver runs the requested mode between (de|re)formatters."""
import io, os, re, shutil, sys, zipfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *
import build as B, fmt

FORMATS = ["txt", "html", "html-noent", "html-alt", "rtf", "wxml", "xpresstag", "mediawiki"]
DE = {"html-noent": "html"}
RE = {"html-alt": "html-noent"}
ZIPS = ["odt", "docx", "xlsx", "pptx"]
ZDE = {"docx": "wxml"}
WORDS = ["house", "big", "cat", "green", "tree", "café", "naïve"]
LT = {w: w[::-1] + "o" for w in WORDS}

def header_script(name, lines):
    """The script as the Makefile assembles it."""
    src = open(os.path.join(B.AP, name), encoding="utf8").read()
    return "#!/usr/bin/env bash\n" + lines + src
def dictionaries(d):
    def dix(es, sec="main"):
        al = "".join(sorted({c for w in WORDS for c in w + w[::-1]})) + "o"
        return '<dictionary><alphabet>%s</alphabet><sdefs><sdef n="n"/></sdefs><section id="%s" type="standard">%s</section></dictionary>' % (al + al.upper(), sec, es)
    e = lambda a, b: "<e><p><l>%s</l><r>%s</r></p></e>" % (a, b)
    S = '<s n="n"/>'
    out = {}
    for n, text, way in [("automorf", dix("".join(e(w, w + S) for w in WORDS)), "lr"), ("autobil", dix("".join(e(w + S, LT[w] + S) for w in WORDS)), "lr"),
                         ("autogen", dix("".join(e(LT[w], LT[w] + S) for w in WORDS)), "rl")]:
        p = os.path.join(d, n + ".dix"); open(p, "w").write(text)
        q = os.path.join(d, "x-y." + n + ".bin")
        x = run(["lt-comp", way, p, q])
        if x.rc: raise RuntimeError(x.err)
        out[n] = q
    return out
REC = """#!/bin/sh
l="${0##*/}"; for a in "$@"; do l="$l [$a]"; done
printf '%s\\n' "$l" >> "$REC"
cat
"""

def main_(chk):
    progs = sorted({"apertium-des" + DE.get(f, f) for f in FORMATS} | {"apertium-re" + RE.get(f, f) for f in FORMATS} |
                   {"apertium-des" + ZDE.get(f, f) for f in ZIPS} | {"apertium-re" + ZDE.get(f, f) for f in ZIPS} |
                   {"apertium-prelatex", "apertium-postlatex-raw", "apertium-deslatex", "apertium-relatex", "apertium-adapt-docx",
                    "apertium-wblank-mode", "apertium-wblank-attach", "apertium-wblank-detach", "apertium-pretransfer"})
    ex = chk.build(progs)
    bd = os.path.join(chk.base, "bin"); os.makedirs(bd)
    for p, q in ex.items(): os.symlink(q, os.path.join(bd, p))
    def script(name, text):
        with open(os.path.join(bd, name), "w") as f: f.write(text)
        os.chmod(os.path.join(bd, name), 0o755)
    script("apertium", header_script("apertium-header.sh", 'APERTIUM_PATH="${APERTIUM_PATH:-/nonexistent}"\nAPERTIUM_DATADIR="${APERTIUM_DATADIR:-/nonexistent/share}"\napertium_version="Apertium 9.9.9"\n'))
    script("apertium-unformat", header_script("apertium-unformat-header.sh", 'APERTIUM_PATH="/nonexistent/bin"\n'))
    script("apertium-utils-fixlatex", "#!/usr/bin/env bash\n" + open(os.path.join(B.AP, "utils-fixlatex-header.sh"), encoding="utf8").read())
    PICK = "sed -u 's:\\^[^/$]*/\\([^/$]*\\)[^$]*\\$:^\\1$:g'\n"
    for n in ("apertium-tagger", "my-tool", "rtx-proc"): script(n, REC if n == "my-tool" else REC.replace("cat\n", PICK))
    data = os.path.join(chk.base, "da ta"); md = os.path.join(data, "modes"); os.makedirs(md)
    bins = dictionaries(data)
    MODES = {
        "x-y": "lt-proc '%(automorf)s' | apertium-tagger -g $2 'p' | apertium-pretransfer | lt-proc -b '%(autobil)s' | rtx-proc 'r' | lt-proc $1 '%(autogen)s'" % bins,
        "id": "my-tool $1 $2 \"$1\"",
        "shout": "my-tool -z $1 | sed -u 's/a/4/g'",
        "x-y-morph": "lt-proc '%(automorf)s'" % bins,
        "x-y-biltrans": "lt-proc '%(automorf)s' | apertium-tagger -g '$1' | apertium-pretransfer | lt-proc -b '%(autobil)s'" % bins,
        "helped": "lt-proc '%(automorf)s' | apertium-wblank-attach | apertium-tagger -g | apertium-pretransfer | lt-proc -b '%(autobil)s' | rtx-proc | apertium-wblank-detach | lt-proc $1 '%(autogen)s'" % bins,
    }
    for n, t in MODES.items():
        with open(os.path.join(md, n + ".mode"), "w") as f: f.write(t + "\n")
    prefs = os.path.join(data, "prefs"); os.makedirs(prefs)
    with open(os.path.join(prefs, "x-y.xml"), "w") as f:
        f.write('<preferences-file><preference id="ise_ize"><option id="agonise"/><option id="idolise"/><option id="lionise"/></preference><preference id="col"><option id="a"/></preference></preferences-file>')
    tmx = os.path.join(chk.base, "m.tmx")
    with open(tmx, "w") as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?><tmx version="1.4"><header/><body><tu><tuv xml:lang="x"><seg>big green house</seg></tuv><tuv xml:lang="y"><seg>GRAND CASA</seg></tuv></tu></body></tmx>')
    tmbin = os.path.join(chk.base, "m.bin"); run(["lt-tmxcomp", "x-y", tmx, tmbin])
    BASE = dict(ENV, PATH=bd + ":" + ENV["PATH"], APERTIUM_PATH=bd)

    def effective(mode, z):
        """The stages a mode must run, as one shell pipeline."""
        helped = "apertium-wblank-" in mode
        out = []
        for s in mode.split(" | "):
            if z and " -z" not in s:
                w = s.split(" ", 1); s = " ".join([w[0], "-z"] + w[1:])
            out += (["apertium-wblank-detach"] if "autogen.bin" in s and not helped else []) + [s] + (["apertium-wblank-attach"] if "automorf.bin" in s and not helped else [])
        return " | ".join(out)
    def negate(v):
        opts = {"ise_ize": ["agonise", "idolise", "lionise"], "col": ["a"]}
        res = []
        for kv in v.split(","):
            if not kv: continue
            k, _, x = kv.partition("=")
            if x.startswith("-"): x = ":".join(o for o in opts.get(k, []) if o not in x[1:].split(":")); res.append(k + "=" + x)
            elif x: res.append(k + "=" + x)
            else: res.append(k)
        return ",".join(res)
    def translate(c, env, stream, mode, o1, o2, z, tm, setvar):
        if tm:
            x = run(["lt-tmxproc", tmbin], stream, env=env); stream = x.out
        if setvar and stream: stream = ("[<STREAMCMD:SETVAR:%s>]" % setvar).encode() + stream
        x = run(["/bin/bash", "-c", effective(MODES[mode], z), "mode", o1, o2], stream, env=env); c.evals += 1
        out = x.out
        if setvar: out = re.sub(rb"\[<STREAMCMD:SETVAR:[^>]*>\]", b"", out)
        return x, out
    def setup(i):
        top = os.path.join(scratch(), "c%d" % i); os.makedirs(os.path.join(top, "tmp"))
        env = dict(BASE, TMPDIR=os.path.join(top, "tmp"), REC=os.path.join(top, "rec"))
        open(env["REC"], "w").close()
        return top, env
    def rec(env):
        t = open(env["REC"]).read(); open(env["REC"], "w").close(); return sorted(t.splitlines())
    def options(r, c):
        mode = r.choice(list(MODES)); o = []; q = {"-u": r.random() < .4, "-a": r.random() < .3, "-n": r.random() < .3, "-z": r.random() < .15, "-H": r.random() < .06}
        for k, v in q.items():
            if v: o.append(k)
        r.shuffle(o)
        if len(o) > 1 and r.random() < .3: o = ["-" + "".join(x[1] for x in o)]
        sv = r.choice(["col=a", "ise_ize=-agonise:lionise", "ise_ize=idolise,col", "ise_ize=-idolise,col=-a"]) if r.random() < .12 else ""
        return mode, o, q, sv
    def words(r, n):
        res = []
        for _ in range(n):
            w = r.choice(WORDS + ["zork", "blub", "qux", "12", "a"])
            if r.random() < .2: w = w.capitalize()
            res.append(w)
        return " ".join(res)
    def call(r, c, env, args, doc, infile, outfile):
        pos = [args["mode"]] + ([infile] if infile else []) + ([outfile] if outfile else [])
        opts = list(args["opts"])
        if r.random() < .25: cmd = pos[:1] + opts + pos[1:]
        else: cmd = opts + pos
        x = run([os.path.join(bd, "apertium")] + cmd, b"" if infile else doc, env=env, cwd=args["cwd"]); c.evals += 1
        return x, cmd
    def text_case(r, i, c):
        top, env = setup(i)
        mode, o, q, sv = options(r, c)
        f = r.choice(FORMATS + ["none", "txt", "html", "latex", "latex-raw", "strange"]); name = f
        if f in ("txt", "html", "xpresstag", "wxml") and r.random() < .15: name = f + "u"; q["-u"] = True
        if f == "latex" or f == "latex-raw":
            doc = "\\documentclass{article}\n\\begin{document}\n" + "\n\n".join(r.choice(["%s.", "\\section{%s}", "%s \\textbf{" + words(r, 2) + "} end.", "%s \\emph{" + words(r, 1) + "}.", "$x+y$ %s", "%s"]) % words(r, r.randint(1, 5)) for _ in range(r.randint(1, 5))) + "\n\\end{document}\n"
        elif f in ("txt", "none", "strange") or r.random() < .1:
            doc = "".join(r.choice(["%s.", "%s", "%s, %s?", "  %s", "Mr. %s!", ""]).replace("%s", words(r, r.randint(1, 5))) + "\n" * r.choice([1, 1, 2, 3]) for _ in range(r.choice([0, 1, 3, 8])))
            if r.random() < .3: doc = doc.rstrip("\n")
            if f in ("txt", "strange") and r.random() < .3: doc = doc.replace(" ", r.choice([" [", " ^", "$ ", " / ", "\t"]))
        elif f == "html":
            doc = "".join(r.choice(["<p>%s</p>\n", "<b>%s</b> ", "%s<br/>", "<i>%s</i>.", "<!-- %s -->", "%s &amp; "]) % words(r, r.randint(1, 4)) for _ in range(r.choice([0, 1, 4, 9])))
        else: doc = "".join(p[1] for p in fmt.document(r, f, r.choice([1, 3, 10])))
        tm = f not in ("none",) and r.random() < .15
        if tm: doc = doc.replace("%s", "big green house") + (" big green house." if f in ("txt", "html") else "")
        if mode == "shout" and f not in ("txt", "none", "strange"): mode = "x-y"
        dd = doc.encode("utf8", "surrogatepass")
        explicit = r.random() < .5
        opts = o + (["-f", name] if name != "txt" or r.random() < .3 else [])
        if r.random() < .5 or sv: opts += ["-d", data]; 
        else: env["APERTIUM_DATADIR"] = data
        if tm: opts += ["-m", tmx] + ([] if mode == "x-y" and r.random() < .8 else ["-o", "x-y"])
        if r.random() < .1: opts = [x for x in opts if x != "-d"] if 0 else opts
        infile = r.choice([None, "in.doc", os.path.join(top, "in file")]) if not r.random() < .1 else "/dev/stdin"
        outfile = None
        if infile and infile != "/dev/stdin":
            with open(os.path.join(top, infile), "wb") as g: g.write(dd)
            if r.random() < .5: outfile = r.choice(["out.doc", os.path.join(top, "out file")])
        if sv: env["AP_SETVAR"] = sv
        files = {"doc": dd, "mode": MODES[mode]}
        x, cmd = call(r, c, env, {"mode": mode, "opts": opts, "cwd": top}, dd, None if infile == "/dev/stdin" and 0 else infile, outfile) if infile != "/dev/stdin" else (run([os.path.join(bd, "apertium")] + opts + [mode, "/dev/stdin"], dd, env=env, cwd=top), opts + [mode, "/dev/stdin"])
        got_rec = rec(env)
        files["command"] = " ".join(cmd)
        if c.san(x, **files): return
        # the parts by hand
        fo = [a for a, k in (("-n", "-n"), ("-o", "-H")) if q[k]]
        o1 = "-n" if q["-u"] else "-g"; o2 = "-m" if q["-a"] else ""
        base = "txt" if f == "strange" else f
        if base in ("latex", "latex-raw"):
            ff = os.path.join(top, "l.tex"); open(ff, "wb").write(dd)
            a = run(["/bin/bash", "-c", 'apertium-prelatex "$1" | apertium-utils-fixlatex | apertium-deslatex %s' % " ".join(fo), "x", ff], env=env).out
        elif base == "none": a = dd
        else: a = run([ex["apertium-des" + DE.get(base, base)]] + fo, dd).out
        y, b = translate(c, env, a, mode, o1, o2, q["-z"], tm, (negate(sv) if mode == "x-y" or mode.startswith("x-y-") and 0 else sv) if sv else "")
        want_rec = rec(env)
        if base in ("latex", "latex-raw"):
            e = run(["/bin/bash", "-c", "apertium-relatex | sed 's|</CONTENTS-noeos>|</CONTENTS>|g' | apertium-postlatex-raw"], b, env=env).out
        elif base == "none": e = b
        else: e = run([ex["apertium-re" + RE.get(base, base)]], b).out
        got = x.out
        if outfile:
            if x.out: c.violation("stray", "wrote %r to the standard output besides the output file" % x.out[:200], **files); return
            try: got = open(os.path.join(top, outfile), "rb").read()
            except OSError: c.violation("output-" + f, "no output file (exit %d, %r)" % (x.rc, x.err[-300:]), **files); return
        if x.rc or got != e:
            c.violation("output-" + f, "%s: exit %d %r\n%s" % (" ".join(cmd), x.rc, x.err[-200:], diff(dec(e), dec(got))), expected=e, observed=got, **files); return
        if got_rec != want_rec: c.violation("arguments", "%s: the mode's programs got %r, should get %r" % (" ".join(cmd), got_rec, want_rec), **files); return
        if x.err and f != "strange" and not tm: c.violation("noise", "%s: writes %r to the standard error" % (" ".join(cmd), x.err[:300]), **files); return
        if f == "strange" and b"format" not in x.err: c.violation("noise", "no warning about the unknown format", **files); return
        left = os.listdir(env["TMPDIR"])
        if left: c.violation("leftovers", "%s leaves %s behind" % (" ".join(cmd), left), **files); return
        # what a reader of the translation sees
        if mode in ("x-y", "helped") and f == "txt" and not tm and not set(doc) & set("^$/[*"):
            marks = got.decode("utf8", "replace").count("*")
            if q["-u"] and marks > doc.count("*"): c.violation("marks", "unknown words marked in spite of -u: %r" % got[:300], **files); return
            if not q["-u"] and "zork" in doc and "*zork" not in dec(got): c.violation("marks", "unknown word not marked: %r" % got[:300], **files); return
            if "house" in doc and "[" not in doc and "esuoho" not in dec(got): c.violation("words", "not translated: %r" % got[:300], **files); return
        c.ev("format_" + base); c.ev("mode_" + mode); c.ev("tm", int(tm)); c.ev("setvar", int(bool(sv))); c.ev("outfile", int(bool(outfile)))
        if doc: c.seen((cmd[:-1], doc, mode))
        if i < 5: c.sample({"command": " ".join(os.path.basename(z) for z in cmd), "doc": doc[:80], "output": dec(got)[:80]})
        shutil.rmtree(top)
    def unformat_case(r, i, c):
        top, env = setup(i)
        f = r.choice(FORMATS)
        doc = "".join(p[1] for p in fmt.document(r, f, r.choice([1, 3, 10]))); dd = doc.encode("utf8", "surrogatepass")
        if f == "rtf": f = "txt"
        x0 = run([ex["apertium-des" + DE.get(f, f)]], dd)
        infile = r.choice([None, "in", os.path.join(top, "in f")]); out = None
        opts = ["-f", f] if f != "txt" or r.random() < .5 else []
        if infile:
            open(os.path.join(top, infile), "wb").write(dd); out = r.choice([None, "out", os.path.join(top, "o u t")])
        x = run([os.path.join(bd, "apertium-unformat")] + opts + [q for q in (infile, out) if q], b"" if infile else dd, env=env, cwd=top); c.evals += 1
        got = open(os.path.join(top, out), "rb").read() if out and os.path.exists(os.path.join(top, out)) else x.out
        for q in re.findall(rb"\[@(/tmp/file\w{6})\]", x0.out + got): os.path.exists(q) and os.unlink(q)
        big = lambda b: re.sub(rb"/tmp/file\w{6}", b"/tmp/file", b)
        if x.rc or big(got) != big(x0.out) or (out and x.out) or x.err: c.violation("unformat", "apertium-unformat %s: exit %d %r\n%s" % (opts, x.rc, x.err[-200:], diff(dec(x0.out), dec(got))), doc=dd)
        c.ev("unformat"); c.seen(("un", f, doc))
        shutil.rmtree(top)
    def zipdoc(r, f):
        """[(member, bytes)], {member: text part?}"""
        t = lambda: words(r, r.randint(1, 4))
        head = '<?xml version="1.0" encoding="UTF-8"?>' + r.choice(["\n", "\r\n"])
        other = [("x/rels.bin", bytes(r.randrange(256) for _ in range(60))), ("meta.dat", "<m>%s</m>\n" % t())]
        if f == "odt":
            body = lambda: "".join("<text:p text:style-name=\"P1\">%s%s</text:p>" % (t(), r.choice(["", "<text:span text:style-name=\"T1\">%s</text:span>." % t()])) for _ in range(r.randint(1, 4)))
            m = [("mimetype", "application/vnd.oasis.opendocument.text"), ("content.xml", head + "<office:document-content><office:body><office:text>" + body() + "</office:text></office:body></office:document-content>"),
                 ("styles.xml", head + "<office:document-styles><office:master-styles>" + body() + "</office:master-styles></office:document-styles>"), ("meta.xml", head + "<office:meta>%s</office:meta>" % t())]
            parts = ["content.xml", "styles.xml"]
            if r.random() < .3: m.append(("Object 1/content.xml", head + "<office:document-content><office:body>%s</office:body></office:document-content>" % body())); parts.append("Object 1/content.xml")
        elif f == "docx":
            par = lambda: "<w:p>%s</w:p>" % "".join("<w:r>%s<w:t xml:space=\"preserve\">%s</w:t></w:r>" % (r.choice(["", "<w:rPr><w:b/></w:rPr>"]), t() + " ") for _ in range(r.randint(1, 3)))
            ns = ' xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"'
            m = [("word/document.xml", head + "<w:document%s><w:body>%s</w:body></w:document>" % (ns, "".join(par() for _ in range(r.randint(1, 3))))),
                 ("word/header1.xml", head + "<w:hdr%s>%s</w:hdr>" % (ns, par())), ("word/styles.xml", head + "<w:styles>%s</w:styles>" % t()), ("[Content_Types].xml", head + "<Types/>"), ("word/_rels/document.xml.rels", "<r/>"), ("docProps/app.xml", head + "<P>%s</P>" % t())]
            parts = ["word/document.xml", "word/header1.xml"]
        elif f == "xlsx":
            m = [("xl/sharedStrings.xml", head + "<sst>%s</sst>" % "".join("<si><t>%s</t></si>" % t() for _ in range(r.randint(1, 5)))), ("xl/workbook.xml", head + "<workbook>%s</workbook>" % t())]
            parts = ["xl/sharedStrings.xml"]
        else:
            sl = lambda: head + "<p:sld><p:txBody>%s</p:txBody></p:sld>" % "".join("<a:p><a:r><a:t>%s</a:t></a:r></a:p>" % t() for _ in range(r.randint(1, 3)))
            m = [("ppt/slides/slide%d.xml" % k, sl()) for k in range(1, r.choice([2, 3]))] + [("ppt/presentation.xml", head + "<p>%s</p>" % t())]
            parts = [a for a, _ in m if "slides/" in a]
        m = [(a, b if isinstance(b, bytes) else b.encode()) for a, b in m + other]
        return m, parts
    def pack(m):
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, "w", zipfile.ZIP_DEFLATED) as z:
            for a, b in m: z.writestr(a, b)
        return bio.getvalue()
    def joined(path, b):
        # the driver hands over one line per part: its lines joined by spaces
        ls = b.decode("utf8").split("\n")
        if ls and ls[-1] == "": ls.pop()
        return ('<file name="%s"/>' % path + "".join(" " + l for l in ls) + "\n").encode()
    def unjoin(b):
        t = b.decode("utf8").split("\n")[0]
        k = t.index("/>") + 3
        return (re.sub(r"[?]> ", "?>\n", t[k - 1:].lstrip(" ") if 0 else t[k:]) + "\n").encode()
    def convert(c, env, f, path, b, o, mode, q, tm):
        if f == "docx":
            with open(path, "wb") as g: g.write(b)
            a = run([ex["apertium-adapt-docx"], "-n"], path + "\n", env=env).out
        else: a = joined(path, b)
        fo = [k for k, v in (("-n", "-n"), ("-o", "-H")) if q[v]]
        a = run([ex["apertium-des" + ZDE.get(f, f)]] + fo, a).out
        y, s = translate(c, env, a, mode, "-n" if q["-u"] else "-g", "-m" if q["-a"] else "", q["-z"], tm, "")
        return unjoin(run([ex["apertium-re" + ZDE.get(f, f)]], s).out)
    def zip_case(r, i, c):
        top, env = setup(i); f = ZIPS[i % 4]
        mode, o, q, sv = options(r, c)
        if mode == "shout": mode = "x-y"
        m, parts = zipdoc(r, f); inner = None
        if f in ("docx", "pptx") and r.random() < .4:
            im, ip = zipdoc(r, "xlsx"); inner = ("word/embeddings/Sheet 1.xlsx", im, ip); m.append((inner[0], pack(im)))
        name = f + ("u" if r.random() < .15 and f != "odp" else "")
        if name != f: q["-u"] = True
        elif f == "odt" and r.random() < .2: name = "odp"
        infile = r.choice([None, "in.zip", os.path.join(top, "i n.zip")]); outfile = r.choice([None, "out.zip", os.path.join(top, "o ut.zip")]) if infile else None
        z = pack(m)
        if infile: open(os.path.join(top, infile), "wb").write(z)
        opts = o + ["-f", name, "-d", data]
        x, cmd = call(r, c, env, {"mode": mode, "opts": opts, "cwd": top}, z, infile, outfile)
        rec(env)
        files = {"in.zip": z, "command": " ".join(cmd)}
        if c.san(x, **files): return
        got = x.out
        if outfile:
            if x.out: c.violation("stray", "wrote %r to the standard output besides the output file" % x.out[:200], **files); return
            got = open(os.path.join(top, outfile), "rb").read() if os.path.exists(os.path.join(top, outfile)) else b""
        try:
            with zipfile.ZipFile(io.BytesIO(got)) as zz: res = {n: zz.read(n) for n in zz.namelist() if not n.endswith("/")}
        except Exception as e: c.violation("output-" + f, "%s: the output is not a zip file (%s; exit %d; %r)" % (" ".join(cmd), e, x.rc, x.err[-300:]), observed=got, **files); return
        if x.rc or set(res) != {a for a, _ in m}: c.violation("output-" + f, "%s: members %s, should be %s" % (" ".join(cmd), sorted(res), sorted(a for a, _ in m)), **files); return
        work = os.path.join(top, "w"); os.makedirs(work)
        def compare(a, want, have):
            if want != have: c.violation("output-" + f, "%s: part %s\n%s" % (" ".join(cmd), a, diff(want.decode("utf8", "replace"), have.decode("utf8", "replace"))), **files); return True
        for a, b in m:
            if inner and a == inner[0]:
                try:
                    with zipfile.ZipFile(io.BytesIO(res[a])) as zz: ir = {n: zz.read(n) for n in zz.namelist() if not n.endswith("/")}
                except Exception as e: c.violation("embedded", "%s: the embedded sheet is not a zip file any more: %r" % (" ".join(cmd), res[a][:60]), **files); return
                iq = dict(q, **{"-n": False, "-H": False, "-z": False, "-a": False})
                for ia, ib in inner[1]:
                    w = convert(c, env, "xlsx", os.path.join(work, "e.xml"), ib, o, mode, iq, False) if ia in inner[2] else ib
                    if compare("embedded " + ia, w, ir.get(ia, b"")): return
                c.ev("embedded")
            else:
                w = convert(c, env, f, os.path.join(work, "p.xml"), b, o, mode, q, False) if a in parts else b
                if compare(a, w, res[a]): return
        if x.err: c.violation("noise", "%s: writes %r to the standard error" % (" ".join(cmd), x.err[:300]), **files); return
        left = os.listdir(env["TMPDIR"])
        if left: c.violation("leftovers", "%s leaves %s behind" % (" ".join(cmd), left), **files); return
        c.ev("format_" + f); c.ev("parts", len(parts)); c.seen((f, z))
        shutil.rmtree(top)
    def error_case(r, i, c):
        top, env = setup(i); env["APERTIUM_DATADIR"] = data
        A = os.path.join(bd, "apertium")
        ok = os.path.join(top, "ok"); open(ok, "w").write("house\n")
        outp = os.path.join(top, "out")
        kind, args, e2 = r.choice([
            ("missing mode", ["no-such"], {}), ("missing mode", ["-u", "x-z", ok], {}), ("missing mode", ["x-y.mode"], {}), ("missing input", ["x-y", os.path.join(top, "nope")], {}), ("missing input", ["x-y", os.path.join(top, "nope"), outp], {}),
            ("missing data", ["-d", os.path.join(top, "nodata"), "x-y"], {}), ("no mode", [], {}), ("no mode", ["-u"], {}), ("too many", ["x-y", ok, outp, "more"], {}),
            ("unknown option", ["-q", "x-y"], {}), ("option argument", ["-f"], {}), ("option argument", ["x-y", "-d"], {}), ("bad memory", ["-m", os.path.join(top, "nope"), "x-y"], {}), ("help", ["-h"], {})])
        x = run([A] + args, "house\n", env=env, cwd=top); c.evals += 1
        files = {"command": " ".join(args)}
        if c.san(x, **files): return
        if x.rc == 0: c.violation("errors", "%s: apertium %s exits 0" % (kind, args), **files); return
        if x.out and kind != "help": c.violation("errors", "%s: apertium %s writes %r to the standard output" % (kind, args, x.out[:200]), **files); return
        if not (x.err or kind == "help"): c.violation("errors", "%s: apertium %s says nothing" % (kind, args), **files); return
        if kind == "missing mode" and not all(("  " + m + "\n").encode() in x.err for m in MODES): c.violation("errors", "missing mode: the message does not list the modes: %r" % x.err[:300], **files); return
        if os.path.exists(outp): c.violation("errors", "%s: created the output file" % kind, **files); return
        if os.listdir(env["TMPDIR"]): c.violation("leftovers", "%s leaves %s" % (kind, os.listdir(env["TMPDIR"])), **files); return
        c.ev("errors"); c.seen((kind, tuple(args[:2])))
        y = run([A, r.choice(["-l", "-ul"])] + r.choice([[], ["-d", data], ["x"]]), env=env, cwd=top); c.evals += 1
        if "-d" not in y.cmd or 1:
            if y.rc or (sorted(dec(y.out).split("\n")) != sorted("".join("  %s\n" % m for m in MODES).split("\n")) and "-d" not in y.cmd[2:3]): c.violation("list", "apertium -l: %d %r" % (y.rc, y.out[:300]), **files)
        shutil.rmtree(top)
    def line_case(r, i, c):
        """Line by line: every line is translated on its own, none is lost."""
        top, env = setup(i); env["APERTIUM_DATADIR"] = data
        lines = []
        for _ in range(r.choice([1, 2, 5, 12])):
            l = words(r, r.choice([0, 1, 1, 2, 5]))
            if l and r.random() < .5: l += r.choice([".", "?", "!", ",", " .", "...", ";"])
            if r.random() < .1: l = "  " + l
            lines.append(l)
        end = r.choice(["\n", "\n", ""]); doc = "\n".join(lines) + end
        u = r.random() < .5
        x = run([os.path.join(bd, "apertium"), "-f", "line"] + (["-u"] if u else []) + ["x-y"], doc, env=env, cwd=top); c.evals += 1
        files = {"doc": doc}
        if c.san(x, **files): return
        def tr(m):
            w = m.group(0); k = w.lower()
            if k in LT: t = LT[k]; return t[0].upper() + t[1:] if w[0].isupper() else t
            return w if u else "*" + w
        want = "\n".join(re.sub(r"[a-zéïA-Z]+|12", tr, l) for l in lines) + end
        norm = lambda t: [q.strip() for q in t.split("\n")]
        if x.rc or norm(dec(x.out)) != norm(want): c.violation("line", "line mode: exit %d\n%s" % (x.rc, diff(want, dec(x.out))), **files); return
        c.ev("lines", len(lines)); c.seen(("line", doc))
        shutil.rmtree(top)
    def unzip_case(r, i, c):
        top, env = setup(i); f = ["odt", "xlsx", "pptx"][i % 3]
        while True:
            m, parts = zipdoc(r, f)
            parts = [a for a in parts if f != "odt" or a == "content.xml"]
            if len(parts) == 1 and not any(a.startswith("Object") for a, _ in m): break
        z = pack(m); inf = os.path.join(top, "i n"); open(inf, "wb").write(z); out = r.choice([None, os.path.join(top, "o ut")])
        x = run([os.path.join(bd, "apertium-unformat"), "-f", f, inf] + ([out] if out else []), env=env, cwd=top); c.evals += 1
        got = open(out, "rb").read() if out and os.path.exists(out) else x.out
        b = dict(m)[parts[0]]
        want = run([ex["apertium-des" + f]], joined("F", b)).out
        name = lambda t: re.sub(rb'name="[^"]*"', b'name="F"', re.sub(rb'\\/', b"/", t), count=1)
        if x.rc or x.err or (out and x.out) or name(got) != name(want): c.violation("unformat-" + f, "exit %d %r\n%s" % (x.rc, x.err[-200:], diff(dec(name(want)), dec(name(got)))), doc=z); return
        part = re.search(rb'name="([^"]*)"', re.sub(rb'\\/', b"/", got))
        if part and not part.group(1).endswith(b"/" + enc(parts[0])): c.violation("part-" + f, "the part %r is called %r" % (parts[0], part.group(1)), doc=z); return
        left = os.listdir(env["TMPDIR"])
        if left: c.violation("leftovers", "apertium-unformat leaves %s" % left)
        c.ev("unformat_" + f); c.seen(("un", z)); shutil.rmtree(top)
    chk.run_cases(unzip_case, chk.n(30, 300), "unzip")
    chk.run_cases(text_case, chk.n(420, 5000), "text")
    chk.run_cases(zip_case, chk.n(80, 1000), "zip")
    chk.run_cases(error_case, chk.n(60, 400), "error")
    chk.run_cases(line_case, chk.n(80, 1000), "line")
    chk.run_cases(unformat_case, chk.n(60, 600), "unformat")
    chk.min_evals = 800
if __name__ == "__main__": main(main_, "M03", "one case = one call of the apertium script (assembled from the current tree) with a generated document, mode, format and set of options, whose output, messages, arguments handed to the mode's programs and leftovers are compared with running deformatter, mode and reformatter by hand; or an erroneous call; or line mode against a word-by-word model; or apertium-unformat",
     ["the formatters themselves are decided by F01-F04, the rewriting of modes by W02", "a lossless zip library reads the archives", "lt-proc and lt-tmxproc of the installed lttoolbox"])
