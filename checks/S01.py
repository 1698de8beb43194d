"""S01: no program corrupts memory, runs into undefined behaviour or hangs on any input."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from trxrun import *
import tag, caps, fmt

# ---- hostile bytes -------------------------------------------------------
TOK = ["^", "$", "/", "<", ">", "[", "]", "[[", "]]", "{", "}", "\\", "*", "@", "#", "+", "~", "\0", "\n", " ", "_", "|", "&", ";", "[[/]]", "[[t:b:1]]", "^a<n>$", "^a<n>/b<n>$",
       "^*x$", "^@x/@x$", "^$", "^/$", "^a/$", "^a<n>{^b<1>$}$", "^a{}$", "^a<n>{", "}$", "<n", "<>", "a", "é", "😀", "#x", "+b<n>", "J<CHK:AB>", "[{]", "[|]", "[}]", ".[]", "[][", "^.<sent>$", "^a/a<n>/a<v>$", "\\\\", "\\^", "0", "<1>", "<12>", "<99999999999>", "\ufeff", "\u2028", "ß", "İ"]
def mutate(r, s, k=None):
    """A few edits of a stream."""
    for _ in range(k if k is not None else r.choice([1, 1, 2, 3, 6, 15])):
        i = r.randint(0, len(s)); x = r.random()
        if x < .35: s = s[:i] + r.choice(TOK) + s[i:]
        elif x < .6:
            j = min(len(s), i + r.choice([1, 1, 1, 2, 5, 20])); s = s[:i] + s[j:]
        elif x < .7:
            # remove one special character
            sp = [m.start() for m in re.finditer(r"[\^$\[\]/<>{}\\]", s)]
            if sp: j = r.choice(sp); s = s[:j] + s[j+1:]
        elif x < .8:
            j = r.randint(0, len(s)); a, b = min(i, j), max(i, j); s = s[:b] + s[a:b][:2000] + s[b:]
        elif x < .88: s = s[:i]
        elif x < .94:
            j = min(len(s), i + r.randint(1, 4)); s = s[:i] + "".join(r.choice(TOK) for _ in range(j - i)) + s[j:]
        else: s = s[:i] + r.choice(TOK) * r.choice([2, 10, 300, 5000]) + s[i:]
        s = s[:60000]
    return s
def soup(r): return "".join(r.choice(TOK) for _ in range(r.choice([0, 1, 2, 5, 12, 40, 200])))
def raw(r, b):
    """Bytes that are no UTF-8."""
    for _ in range(r.randint(1, 3)):
        i = r.randint(0, len(b)); b = b[:i] + r.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xf0\x9f", b"\x80", b"\xc0\x80"]) + b[i + r.randint(0, 1):]
    return b
def hostile(r, valid):
    """One hostile input from a generator of valid ones."""
    x = r.random()
    if x < .06: s = valid(r)
    elif x < .2: s = soup(r)
    elif x < .35: s = "".join(mutate(r, valid(r)) + r.choice(["\0", "\n", " "]) for _ in range(r.randint(2, 8)))
    else: s = mutate(r, valid(r))
    b = s.encode("utf8", "replace")
    if r.random() < .08: b = raw(r, b)
    return b

def grows(rules):
    """May the rules double the contents of a variable at every match?"""
    rules = rules or ""
    return bool(re.search(r"<append", rules) or any("<concat" in x and "<var" in x.split("<concat", 1)[1] for x in re.findall(r"(?s)<let>.*?</let>", rules)))
def judge(c, r, files):
    """Only memory errors, undefined behaviour, crashes and hangs count; an
    error message (an uncaught exception's included) is a proper end."""
    c.evals += 1
    prog = re.sub(r"^[0-9a-f]{24}-", "", os.path.basename(r.cmd[0]))
    if r.rc == -6 and b"terminate called after throwing" in r.err and b"Sanitizer" not in r.err:
        c.ev("exceptions"); c.ev("runs:" + prog); return True
    if r.hang == "wall": raise Inconclusive("wall-clock watchdog: " + prog)
    # lttoolbox's case functions keep the whole string on the stack
    if (r.hang or (r.san and "stack-overflow" in r.san and ("ModifyCase" in r.san or re.search(rb"#0 \S+ in StringUtils::", r.err)))) and grows(files.get("rules.t1x", "")):
        c.ev("growing_variables"); return True
    # the time lttoolbox's patterns with several * need grows with the cube of
    # the length of the word: words of thousands of letters are not a hang
    if r.hang == "cpu" and prog == "apertium-restore-caps" and max(len(x) for x in re.split(r"\$", str(files.get("input", "")))) > 400:
        c.ev("very_long_words"); return True
    if r.san:
        c.violation("%s:%s" % (prog, r.san), "%s\n%s" % (" ".join(r.cmd), r.err.decode("utf8", "replace")[:3000]), **files)
        return False
    c.ev("runs:" + prog)
    if r.rc: c.ev("errors")
    if r.rc and not r.err.strip() and not r.out.strip():
        c.ev("silent_errors")
    c.seen((prog, r.rc, r.out[:4000], r.err[:200]))
    return True

# ---- targets: each prepares its data and returns [(command, valid stream generator)]
def t_transfer(r, c, ex):
    kind = r.choice(["transfer", "transfer", "interchunk", "postchunk"])
    g = trx.Gen(r, kind, r.choice(["lu", "chunk"]))
    comp = Compiled(ex, g.prog, c)
    if not comp.ok: return []
    wb = r.choice([0, .3, .8])
    wf = {"transfer": lambda r: trx.word_b(r, wb), "interchunk": lambda r: trx.chunk_word(r, wb), "postchunk": lambda r: trx.chunk_word(r, wb)}[kind]
    if kind == "transfer" and r.random() < .3:
        wf = trx.word_plain
    def valid(r): return "\0".join(trx.seg_text(s) for s in trx.gen_segments(r, wf, r.choice([1, 1, 2]), prog=g.prog, wb=wb))
    if wf is trx.word_plain:
        if r.random() < .5: mode, extra = "-n", ()
        else: mode, extra = None, (ex["dix"],)
    else: mode, extra = "-b", ()
    res = []
    for o in ([], ["-z"], ["-t"], ["-zt"]):
        cmd = [ex[STAGE[kind]]] + o
        if kind == "transfer": cmd += ([mode] if mode else []) + [comp.xml, comp.bin] + list(extra)
        else: cmd += [comp.xml, comp.bin]
        res.append((cmd, valid, {"rules.t1x": comp.text}))
    return res
def t_multi(r, c, ex):
    g = trx.Gen(r, "transfer", "lu"); comp = Compiled(ex, g.prog, c)
    if not comp.ok: return []
    valid = lambda r: trx.seg_text(trx.gen_segments(r, trx.word_plain, 1, prog=g.prog, maxw=4)[0])
    return [([ex["apertium-multiple-translations"]] + o + [comp.bin, ex["dix"]], valid, {"rules.t1x": comp.text}) for o in ([], ["-z"])]
def units(r, wb=.2):
    out = []
    for _ in range(r.choice([0, 1, 3, 10, 30])):
        out.append(S.blank(r) if r.random() < .8 else "")
        if r.random() < wb: out.append(S.wblank(r))
        w = S.word(r) + "".join(S.tags(r))
        x = r.random()
        if x < .2: w = w + "/" + "/".join(S.word(r) + "".join(S.tags(r)) for _ in range(r.randint(1, 3)))
        elif x < .3: w += "+" + S.word(r) + "".join(S.tags(r))
        elif x < .35: w += "# " + S.word(r)
        elif x < .4: w = "*" + w
        elif x < .45: w = w + "~" + w
        out.append("^%s$" % w)
    return "".join(out) + S.blank(r)
def t_simple(r, c, ex):
    return [([ex[p]] + o, units, {}) for p, os_ in (("apertium-pretransfer", ([], ["-z"], ["-n"], ["-e"], ["-w"])), ("apertium-posttransfer", ([], ["-z"], ["-x"])), ("apertium-cleanstream", ([], ["-z"], ["-n"])),
            ("apertium-wblank-attach", ([], ["-z"])), ("apertium-wblank-detach", ([], ["-z"])), ("apertium-extract-caps", ([], ["-z"]))) for o in os_]
def t_caps(r, c, ex):
    rules = caps.gen_rules(r); d = scratch(); x, b = os.path.join(d, "c.crx"), os.path.join(d, "c.bin")
    text = caps.to_xml(rules)
    with open(x, "w") as f: f.write(text)
    k = run([ex["apertium-compile-caps"], x, b])
    if not judge(c, k, {"rules.crx": text}) or k.rc: return []
    v = lambda r: caps.restore_text(*caps.restore_items(r, r.choice([0, 1, 3, 8])))
    return [([ex["apertium-restore-caps"]] + o + [b], v, {"rules.crx": text}) for o in ([], ["-z"], ["-k"])] + [([ex["apertium-extract-caps"]], caps.extract_stream, {})]
def t_tagger(r, c, ex):
    kind = r.choice(tag.KINDS)
    m = tag.model(r, ex["apertium-tagger"], kind)
    res = [([ex["apertium-tagger"]] + m.options(r) + (["-z"] if r.random() < .3 else []) + (["-d"] if r.random() < .1 else []) + [m.path], m.stream, {"model.tsx": m.text}) for _ in range(3)]
    if m.d is not None and kind in ("hmm", "lsw"):
        res.append(([ex["apertium-filter-ambiguity"], os.path.join(scratch(), "m.tsx")], m.stream, {"model.tsx": m.text}))
    return res
def t_train(r, c, ex):
    """Training on hostile corpora."""
    d = tag.TagDef(r); lex = tag.Lexicon(r, d, plus=.12); D = scratch()
    tsx = tag.put("h.tsx", d.xml()); corpus, _ = lex.corpus(r, r.randint(1, 12))
    dic = lex.dictionary(r); T = ex["apertium-tagger"]; prob = os.path.join(D, "h.prob")
    _, sents = lex.corpus(r, r.choice([1, 5, 12]), unk=0)
    tagged = "".join(" ".join("^%s/%s$" % (w, r.choice(lex.words[w])) for _, w in s) + "\n" for s in sents)
    untagged = "".join(" ".join("^%s/%s$" % (w, "/".join(lex.words[w])) for _, w in s) + "\n" for s in sents)
    res = []
    for which in range(8):
        t = [dic, corpus, tagged, untagged]
        k = r.choice([0, 1, 2, 3]); t[k] = mutate(r, t[k])
        p = [tag.put("h.%d.%d" % (which, q), x.encode("utf8", "replace").decode()) for q, x in enumerate(t)]
        cmd = r.choice([["-t", "1", p[0], p[1], tsx, prob], ["-s", "0", p[0], tsx, prob, p[2], p[3]], ["-s", "1", p[0], p[1], tsx, prob, p[2], p[3]], ["-w", "-t", "1", p[0], p[1], tsx, prob],
                        ["-u", r.choice("123"), "-s", "0", prob, p[2]]])
        res.append(([T] + cmd, None, {"dic": t[0], "crp": t[1], "tagged": t[2], "untagged": t[3], "m.tsx": d.xml()}))
    return res
FMTS = ["txt", "html", "html-noent", "odt", "rtf", "wxml", "xlsx", "pptx", "mediawiki", "xpresstag", "latex"]
def t_des(r, c, ex):
    f = r.choice(FMTS)
    def valid(r):
        if f == "latex": return latex(r)
        d = fmt.document(r, f, r.choice([3, 10, 30]))
        return d if isinstance(d, str) else "".join(p if isinstance(p, str) else p[1] if isinstance(p, tuple) else str(p) for p in d)
    return [([ex["apertium-des" + f]] + o, valid, {}) for o in ([], ["-n"], ["-i"], ["-o"])]
def latex(r):
    P = ["\\section{Title}", "\\begin{document}", "\\end{document}", "\\begin{equation}", "\\end{equation}", "$x^2$", "$$y$$", "%c\n", "\\'e", "\\~n", "\\^{\\i}", "{", "}", "\\emph{a b}", "text ", "\n\n", "\\\\", "\\item ", "\\cite[p]{x}", "\\verb|x|", "\\[ z \\]", "~", "``q''", "\\%", "\\begin{verbatim}", "\\end{verbatim}", "é", "\\c{c}", "\\\"{u}", "\\ss", "\\aa ", "?`", "\\ref{a}", "\\footnote{b}", "&", "#", "_"]
    return "".join(r.choice(P) for _ in range(r.choice([2, 8, 30])))
def t_re(r, c, ex):
    f = r.choice(FMTS)
    return [([ex["apertium-re" + f]], lambda r: units(r).replace("^", "").replace("$", "") + r.choice(["[<b>]", "[]", ".[]", "[<a href=\"\\[x\\]\">]", "&lt;", "[\n]"]), {}) for _ in range(2)]
def t_latex(r, c, ex):
    return [([ex[p]] + o, latex, {}) for p, o in (("apertium-prelatex", []), ("apertium-prelatex", ["-a"]), ("apertium-postlatex", []), ("apertium-postlatex-raw", []), ("apertium-deslatex", []), ("apertium-relatex", []))]
def t_tmx(r, c, ex):
    res = []
    for k in range(4):
        a, b = [hostile(r, lambda r: ". ".join(units(r) for _ in range(3)) + ".[]\n") for _ in "ab"]
        p = [os.path.join(scratch(), "tmx%d%s" % (k, q)) for q in "ab"]
        for n, x in zip(p, (a, b)):
            with open(n, "wb") as f: f.write(x)
        res.append(([ex["apertium-tmxbuild"], "en", "es"] + p, None, {"a": a, "b": b}))
    return res
def t_docx(r, c, ex):
    P = ["<p>", "</p>", "<r>", "</r>", "<t>", "</t>", "<t xml:space=\"preserve\">", "<t/>", "<r/>", "<p/>", "ab", "-", " ", "l·", "é", "&amp;", "<tab/>", "<x>", "</x>", "<!--c-->", "<![CDATA[q]]>"]
    def tree(d):
        if d == 0 or r.random() < .2: return r.choice(["ab", "a-", "l·", " ", "é", "&lt;", ""])
        n = r.choice(["p", "p", "r", "r", "t", "t", "x"])
        return "<%s>%s</%s>" % (n, "".join(tree(d - 1) for _ in range(r.randint(0, 4))), n)
    res = []
    for k in range(4):
        s = tree(5) if r.random() < .6 else "<d>" + "".join(r.choice(P) for _ in range(r.randint(1, 40))) + "</d>"
        if not s.startswith("<"): s = "<d>%s</d>" % s
        n = os.path.join(scratch(), "d%d.xml" % k)
        with open(n, "w") as f: f.write(s)
        res.append(([ex["apertium-adapt-docx"], "-f", n], None, {"doc": s}))
    return res

TARGETS = [(t_transfer, 10), (t_multi, 1), (t_simple, 4), (t_caps, 3), (t_tagger, 5), (t_train, 3), (t_des, 3), (t_re, 3), (t_latex, 2), (t_tmx, 2), (t_docx, 1)]

def main_(chk):
    progs = sorted(set(PROGS + ["apertium-pretransfer", "apertium-posttransfer", "apertium-cleanstream", "apertium-wblank-attach", "apertium-wblank-detach", "apertium-extract-caps", "apertium-restore-caps",
             "apertium-compile-caps", "apertium-tagger", "apertium-filter-ambiguity", "apertium-prelatex", "apertium-postlatex", "apertium-postlatex-raw", "apertium-tmxbuild", "apertium-adapt-docx"]
             + ["apertium-%s%s" % (x, f) for f in FMTS for x in ("des", "re")]))
    ex = dict(chk.build(progs))
    ex["apertium-multiple-translations"] = chk.build(["apertium-multiple-translations"], more=[os.path.join(VERIF, "lib", "bishim.cc")])["apertium-multiple-translations"]
    dix = os.path.join(chk.base, "e.dix"); ex["dix"] = os.path.join(chk.base, "e.bin")
    with open(dix, "w") as f:
        f.write('<dictionary><alphabet/><sdefs><sdef n="n"/><sdef n="v"/></sdefs><section id="m" type="standard">'
                + "".join('<e><p><l>%s<s n="n"/></l><r>%s<s n="n"/></r></p></e>' % (a, b) for a, b in (("a", "b"), ("ab", "x"), ("cat", "gat"), ("cat", "moix"))) + '</section></dictionary>')
    subprocess.run(["lt-comp", "lr", dix, ex["dix"]], check=True, stdout=subprocess.DEVNULL)
    pool = [t for t, n in TARGETS for _ in range(n)]
    def case(r, i, c):
        t = pool[i % len(pool)]
        runs = t(r, c, ex)
        for _ in range(10 if runs and runs[0][1] else len(runs)):
            if not runs: break
            if runs[0][1] is None: cmd, v, files = runs.pop()
            else: cmd, v, files = r.choice(runs)
            data = hostile(r, v) if v else b""
            if "apertium-re" in cmd[0] or "relatex" in cmd[0]:
                # "[@file]" is an order to insert and delete a file
                while b"[@" in data: data = data.replace(b"[@", b"[")
            if "restore-caps" in cmd[0]: data = data[:6000]      # its time is quadratic in the length of one word
            res = run(cmd, data, cpu=8 if grows(files.get("rules.t1x")) else 40)
            if not judge(c, res, dict(files, input=data, output=res.out)): break
            if i < 60 and len(data) < 200: c.sample({"program": os.path.basename(cmd[0])[25:], "input": data.decode("utf8", "replace")[:120], "exit": res.rc})
    chk.run_cases(case, chk.n(len(pool) * 13, len(pool) * 300))
    chk.min_evals = 1500

if __name__ == "__main__":
    main(main_, "S01", "one evaluation = one run of a program built with AddressSanitizer and UndefinedBehaviorSanitizer on a mutated, truncated or random input under CPU, memory and output watchdogs; distinct = distinct (program, exit status, output)",
         ["an uncaught C++ exception counts as stopping with an error message", "reformatters are not given [@file] references, which delete files by design"])
