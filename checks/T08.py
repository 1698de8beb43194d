"""T08: compiled rules mean what the rules file says."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from trxrun import *
import re, copy

TAGS = ["n", "np", "nn", "num", "nump", "sg", "s", "pl", "p1", "p", "p1sg", "px-3", "px-", "a+b", "a", "ab", "x_y", "a*", "q?", "b|c", "b", "&sem", "c(d", "c",
        "d)e", "é", "ñ", "@subj→", "日本", "😀", "m", "mf", "f", "GD", "ND", "2", "12"]
PLAIN = [t for t in TAGS if re.fullmatch(r"\w+", t)]

def esc_tags(ts): return ".".join(ts)

def attr_expect(items, tags):
    """(start, length) of the leftmost longest item in the word's tags."""
    for i in range(len(tags)):
        best = 0
        for it in items:
            if len(it) > best and tags[i:i + len(it)] == it: best = len(it)
        if best: return i, best
    return None

def noise(r, text):
    """The same rules file with comments, white space and free-form attributes."""
    free = {"def-cat": "c", "cat-item": "c", "def-attr": "c", "attr-item": "c", "def-var": "c", "def-list": "c", "list-item": "c", "def-macro": "comment",
            "rule": "comment", "action": "c", "choose": "c", "when": "c", "otherwise": "c", "test": "c"}
    def tag(m):
        name, attrs, end = m.group(1), re.findall(r'\s([\w-]+="[^"]*")', m.group(2)), m.group(3)
        if name in free and r.random() < .3: attrs.append('%s="%s"' % (free[name], r.choice(["x", "n", "a &lt; b", "", "é"])))
        if r.random() < .5: r.shuffle(attrs)
        return "<" + name + "".join(r.choice([" ", "\n  ", "\t"]) + a for a in attrs) + r.choice(["", "", " "]) + end
    out = []
    for line in text.split("\n"):
        out.append(line)
        if len(out) > 2 and r.random() < .2: out.append(r.choice(["<!-- c -->", "  ", "<!-- <rule> &x; -->", "\t<!--\n-->", ""]))
    return re.sub(r'<([a-z][\w-]*)((?:\s[\w-]+="[^"]*")*)(/?>)', tag, "\n".join(out))

def prop_attr(r, c, exes):
    kind = r.choice(["transfer", "transfer", "interchunk"])
    attrs = []
    for k in range(r.randint(1, 5)):
        items = []
        for _ in range(r.choice([1, 2, 3, 6, 12])):
            it = [r.choice(TAGS) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if it not in items: items.append(it)
        attrs.append(("a%d" % k, items))
    side = {"side": "tl"} if kind == "transfer" else {}
    clip = lambda a: ("clip", dict({"pos": 1}, **side, part=a), [])
    body = []
    setit = r.random() < .4
    if setit: body.append(("let", {}, [clip("a0"), ("lit-tag", {"v": "ZZ"}, [])]))
    units = [("|", clip(n)) for n, _ in attrs] + [("=", clip("whole" if kind == "transfer" else "tags"))]
    ch = []
    for s, cl in units: ch += [("lit", {"v": s}, []), cl]
    body.append(("out", {}, [("lu" if kind == "transfer" else "chunk", {}, ch)]))
    prog = {"kind": kind, "default": "lu", "cats": [("c", [(None, "*")])], "attrs": [(n, [esc_tags(i) for i in it]) for n, it in attrs],
            "vars": [], "lists": [], "macros": [], "rules": [(["c"], body)]}
    comp = Compiled(exes, prog, c)
    if not comp.ok: return
    ins, exp = [], []
    for _ in range(r.randint(3, 12)):
        tags = [r.choice(TAGS) for _ in range(r.randint(1, 6))]
        if r.random() < .6:
            k = r.randint(0, len(tags)); it = r.choice(r.choice(attrs)[1]); tags[k:k] = it
        ts = "".join("<%s>" % t for t in tags)
        ins.append("^x%s/y%s$" % (ts, ts) if kind == "transfer" else "^y%s{^a$}$" % ts)
        cur = list(tags); outp = ""
        if setit:
            m = attr_expect(attrs[0][1], cur)
            if m: cur[m[0]:m[0] + m[1]] = ["ZZ"]
        for n, items in attrs:
            m = attr_expect(items, cur)
            outp += "|" + ("".join("<%s>" % t for t in cur[m[0]:m[0] + m[1]]) if m else "")
        outp += "=" + ("y" if kind == "transfer" else "") + "".join("<%s>" % t for t in cur)
        exp.append("^%s$" % outp)
    res = comp.run(enc("\n".join(ins)), [], "-b" if kind == "transfer" else None)
    c.evals += 1
    if c.san(res, rules=comp.text, input=enc("\n".join(ins))): return
    got = dec(res.out).split("\n")
    if got != exp:
        k = next((j for j in range(min(len(got), len(exp))) if got[j] != exp[j]), 0)
        c.violation("attribute", "word %s\nattrs %s\nexpected %s\nobserved %s" % (ins[k], attrs, exp[k], got[k:k + 1]), rules=comp.text, input=enc("\n".join(ins)), observed=res.out)
    c.ev("attribute_words", len(ins)); c.ev("attribute_hits", sum(e.count("|<") for e in exp))
    c.seen(("attr", prog["attrs"], exp))

def prop_patterns(r, c, exes, big):
    kind = r.choice(["transfer", "transfer", "interchunk", "postchunk"])
    L = ["a", "b", "ab", "abc", "é", "c+d", "a b", "x.y", "日本", "l'", "a-b", "100%", "a&b", "<"][:13]
    cats = []
    for i in range(r.randint(1, 60 if big else 8)):
        items = []
        for _ in range(r.choice([1, 1, 2, 4])):
            lem = None if r.random() < .4 else r.choice([r.choice(L), r.choice(L)[:1] + "*", "*" + r.choice(L)[-1:], "a*c", "*"] + ["a\\*b", "\\^", "a\\/*", "*\\$", "\\\\"] * (r.random() < .3))
            if kind == "postchunk": items.append((lem or "*", "")); continue
            t = [r.choice(TAGS[:14] if r.random() < .8 else [x for x in TAGS if x not in ("a*",)]) for _ in range(r.choice([1, 1, 2, 3]))]
            x = r.random()
            if x < .3: t += ["*"]
            elif x < .4: t = ["*"] + t
            elif x < .5: t[len(t) // 2:len(t) // 2] = ["*"]
            elif x < .6: t = ["*"]
            items.append((lem, ".".join(t)))
        cats.append(("c%d" % i, items))
    rules = []
    for k in range(r.randint(1, 300 if big else 8)):
        n = 1 if kind == "postchunk" else r.choice([1, 1, 2, 2, 3])
        rules.append(([r.choice(cats)[0] for _ in range(n)], [("out", {}, [trx.mark(kind, "R%d" % k, n, "lu")])]))
    prog = {"kind": kind, "default": "lu", "cats": cats, "attrs": [], "vars": [("x", "")], "lists": [], "macros": [], "rules": rules}
    comp = Compiled(exes, prog, c)
    if not comp.ok: return
    def word(r):
        l = r.choice(L + ["zz", "abbc", "ac"])
        if r.random() < .2: l = l.upper()
        if r.random() < .3:
            lem, ts = r.choice(r.choice(cats)[1])
            l = re.sub(r"\\.|\*", lambda m: m[0] if len(m[0]) > 1 else r.choice(["q", "ab", "q", "\\/", "\\*", "\\$"]), lem or l); t = ts.split(".") if ts else []
            t = [r.choice(TAGS[:14]) if y == "*" else y for y in t] or ["SN"]
        else: t = [r.choice(TAGS) for _ in range(r.randint(1, 4))]
        w = l + "".join("<%s>" % y for y in t if y != "*")
        if "<" not in w[1:]: w += "<n>"
        return w + "/" + w if kind == "transfer" else w + "{^a$}"
    for _ in range(2):
        segs = trx.gen_segments(r, word, 1, 30)
        it = trx.Interp(prog, False, trx.prebil)
        exp = it.run(segs)
        out = compare(c, comp, segs, exp, [], "-b" if kind == "transfer" else None, "pattern")
        if out is None: return
        c.ev("pattern_matches", it.stats.get("rule_applied", 0)); c.ev("pattern_default", it.stats.get("default_word", 0))
        if it.stats.get("rule_applied"): c.seen(("pat", exp))
    if big: c.ev("big_programs")

def prop_stable(r, c, exes):
    """Same bytes twice; same meaning with another layout and order."""
    kind = r.choice(["transfer", "interchunk", "postchunk"])
    g = trx.Gen(r, kind)
    A = Compiled(exes, g.prog, c, "a")
    if not A.ok: return
    with open(A.bin, "rb") as f: one = f.read()
    rr = run([exes["apertium-preprocess-transfer"], A.xml, A.bin])
    with open(A.bin, "rb") as f: two = f.read()
    c.evals += 1
    if one != two: c.violation("determinism", "two compilations of one rules file differ", rules=A.text); return
    c.ev("recompiled")
    P = copy.deepcopy(g.prog)
    P["cats"] += [("unused", [("zz*", "zz.*.z")])] if kind != "postchunk" else []
    for k in ("attrs", "lists", "vars", "cats"):
        r.shuffle(P[k])
        if k != "vars":
            for _, it in P[k]: r.shuffle(it)
    B = Compiled(exes, P, c, "b")
    if not B.ok: return
    text = noise(r, B.text)
    with open(B.xml, "w") as f: f.write(text)
    rr = run([exes["apertium-preprocess-transfer"], B.xml, B.bin])
    c.evals += 1
    if c.san(rr, rules=text): return
    if rr.rc != 0: c.violation("layout", "a rules file with comments and free attributes does not compile: %s" % dec(rr.err)[:500], rules=text); return
    wf = trx.word_b if kind == "transfer" else trx.chunk_word
    segs = trx.gen_segments(r, wf, 1, 20)
    try: trx.Interp(g.prog, False, trx.prebil).run(segs)     # leave out misuse of reject
    except trx.BadProgram: return
    data = enc(trx.seg_text(segs[0])); m = "-b" if kind == "transfer" else None
    a = A.run(data, [], m); b = B.run(data, [], m)
    c.evals += 1
    for x in (a, b):
        if c.san(x, rules=text, input=data): return
    if a.out != b.out or a.rc != b.rc:
        c.violation("layout", "another layout and definition order changed the output\n" + diff(dec(a.out), dec(b.out)), rules_a=A.text, rules_b=text, input=data)
    c.ev("relayouts"); c.seen(("layout", a.out))

def main_(chk):
    exes = chk.build(PROGS)
    def case(r, i, c):
        k = i % 4
        if k < 2: prop_attr(r, c, exes)
        elif k == 2: prop_patterns(r, c, exes, i % 40 == 2)
        else: prop_stable(r, c, exes)
    chk.run_cases(case, chk.n(1600, 50000))
    chk.min_evals = 1000
if __name__ == "__main__": main(main_, "T08", "one case = (a) random attribute definitions, with prefixes of each other, several tags and characters special in regular expressions, clipped from and assigned to random words and compared with a tag-by-tag search, (b) random categories and up to 300 rules compared with a matcher of its own, or (c) one rules file compiled twice (same bytes) and again with another layout and definition order (same output)",
     ["reference matcher lib/trx.py"])
