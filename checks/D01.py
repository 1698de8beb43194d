"""D01: language-variety filters keep exactly what the variety uses."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dix import *
import copy

VAR = ["cat", "val", "br", "pt", "pt_BR", "other", "ca", "é"]
SKIP = ["with-param", "param", "list-item", "lit", "lit-tag", "attr-item", "def-var"]
def any_tree(r, tags, attr, sep, depth=4):
    """A tree of elements some of which carry the variety attribute."""
    a = {}
    if r.random() < .4: a[attr] = sep.join(r.sample(VAR, r.choice([1, 1, 2, 3])))
    if r.random() < .5: a[r.choice(["n", "c", "id", "v2", "name"])] = word(r)
    kids = [any_tree(r, tags, attr, sep, depth - 1) for _ in range(r.choice([0, 1, 2, 4]))] if depth else []
    if not kids and r.random() < .5: kids = [word(r)]
    return el(r.choice(tags), a, *kids)

def main_(chk):
    S = {n: script(chk, n) for n in ("apertium-filter-xml", "apertium-filter-rules", "apertium-genvdix", "apertium-genvldix", "apertium-genvrdix", "apertium-filter-dix")}
    def put(name, t):
        p = os.path.join(scratch(), name)
        with open(p, "w", encoding="utf8") as f: f.write(t)
        return p
    def filter_xml(r, c):
        attr = r.choice(["v", "v", "v", "var", "vl"]); keep = r.sample(VAR, r.choice([1, 1, 2])); kt = r.sample(["lit", "k"], r.choice([0, 0, 1, 2]))
        t = any_tree(r, ["e", "rule", "lit", "k", "def", "v"], attr, ","); t.attrib.pop(attr, None)
        src = spread(r, text(t)); a = put("a", src); b = os.path.join(scratch(), "b")
        opts = [x for q in kt for x in (r.choice(["-k", "--keep"]), q)] + (["-a", attr] if attr != "v" or r.random() < .2 else [])
        cmd = [S["apertium-filter-xml"]] + opts + [",".join(keep), a, b]
        if os.path.exists(b): os.unlink(b)
        x = run(["python3"] + cmd, b"", env=ENV); c.evals += 1
        def go(n):
            for ch in list(n):
                if ch.tag in kt: continue
                vs = ch.attrib.pop(attr, None)
                if vs is not None and not set(vs.split(",")) & set(keep): n.remove(ch); c.ev("removed")
                else: go(ch); c.ev("kept")
        w = copy.deepcopy(t); go(w)
        files = {"input": src, "command": " ".join(cmd)}
        if x.rc or not os.path.exists(b): c.violation("filter-xml", "exit %d: %r" % (x.rc, x.err[-300:]), **files); return
        if compare(c, "filter-xml", open(b, "rb").read(), tree(w), files): c.seen(src); c.ev("filter-xml")
    def filter_rules(r, c):
        langs = r.sample(VAR, r.choice([1, 1, 2]))
        t = any_tree(r, ["rule", "when", "lit", "action", "cat-item", "list-item", "param", "attr-item", "let"], "v", " "); t.attrib.pop("v", None)
        src = spread(r, text(t)); a = put("a", src)
        stdin = r.random() < .3
        cmd = [S["apertium-filter-rules"]] + langs + ["-" if stdin else a]
        x = run(["python3"] + cmd, src if stdin else b"", env=ENV); c.evals += 1
        def go(n):
            for ch in list(n):
                if ch.tag in SKIP: continue
                vs = ch.attrib.pop("v", None)
                if vs is not None and not set(langs) <= set(vs.split()): n.remove(ch); c.ev("removed")
                else: go(ch); c.ev("kept")
        w = copy.deepcopy(t); go(w)
        files = {"input": src, "command": " ".join(cmd)}
        if x.rc: c.violation("filter-rules", "exit %d: %r" % (x.rc, x.err[-300:]), **files); return
        if compare(c, "filter-rules", x.out, tree(w), files): c.seen(src); c.ev("filter-rules")
    def genv(r, c):
        at = r.choice(["v", "vl", "vr"]); alt = r.choice(VAR)
        def entry(r):
            a = {}
            for q in ("v", "vl", "vr"):
                if r.random() < .4: a[q] = " ".join(r.sample(VAR, r.choice([1, 1, 2, 3])))
            if r.random() < .2: a["r"] = r.choice(["LR", "RL"])
            if r.random() < .3: a[r.choice(["lm", "c", "a"])] = word(r)
            return el("e", a, *body(r))
        t = dictionary(r, entry); src = spread(r, text(t)); a = put("a", src)
        cmd = [S["apertium-gen%sdix" % at], alt, a]
        x = run(["python3"] + cmd, b"", env=ENV); c.evals += 1
        w = copy.deepcopy(t)
        for e in w.iter("e"):
            if at in e.attrib:
                e.attrib[at] = alt if alt in e.attrib[at].split() else "rehto" if alt == "other" else "other"; c.ev("varieties")
        files = {"input": src, "command": " ".join(cmd)}
        if x.rc: c.violation("genv", "exit %d: %r" % (x.rc, x.err[-300:]), **files); return
        if compare(c, "gen%sdix" % at, x.out, tree(w), files): c.seen(src); c.ev("gen%sdix" % at)
    def filter_dix(r, c):
        lang = r.choice(VAR); sd = r.choice(["left", "right"])
        def entry(r):
            a = {}
            if r.random() < .5: a["v"] = r.choice(VAR[:4] + [lang, lang])
            if r.random() < .4: a["r"] = r.choice(["LR", "RL"])
            if r.random() < .3: a[r.choice(["lm", "i", "w"])] = r.choice(["yes", "1.5", "a b"])
            return el("e", a, *body(r))
        t = dictionary(r, entry); src = spread(r, text(t)); a = put("a", src)
        cmd = [S["apertium-filter-dix"], lang, sd, a]
        x = run(["bash"] + cmd, b"", env=ENV); c.evals += 1
        w = copy.deepcopy(t); only, other = ("LR", "RL") if sd == "left" else ("RL", "LR")
        for p in w.iter():
            for e in list(p):
                if e.tag != "e": continue
                v = e.attrib.pop("v", None)
                if v is None or v == lang: c.ev("kept"); continue
                # another variety's entry: never produced in this one
                if e.get("r") == other: p.remove(e); c.ev("removed")
                else: e.attrib["r"] = only; c.ev("one_way")
        files = {"input": src, "command": " ".join(cmd)}
        if x.rc: c.violation("filter-dix", "exit %d: %r" % (x.rc, x.err[-300:]), **files); return
        if compare(c, "filter-dix", x.out, tree(w), files): c.seen(src); c.ev("filter-dix")
    KIND = [filter_xml, filter_rules, genv, filter_dix]
    def case(r, i, c):
        KIND[i % 4](r, c)
        if i < 8: c.sample({"script": KIND[i % 4].__name__})
    chk.run_cases(case, chk.n(800, 16000))
    chk.min_evals = 500
if __name__ == "__main__": main(main_, "D01", "one case = one script and one generated XML file with variety attributes anywhere, whose result is compared, as a tree (white space between elements ignored), with a reference filter",
     ["comments, the XML declaration and white space between elements are not compared", "elements with a variety attribute are not followed by text"])
