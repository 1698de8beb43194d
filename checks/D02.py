"""D02: lexical-selection macros, sequences and repeats expand to the rules they stand for."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dix import *
import copy

VAL = ["casa", "x<y", "R&D", 'say "no"', "a'b", "ñ", "語", "n.*", "*", "n.sg", "a b", "", "{", "p1"]
def match(r, f=word):
    a = {}
    if r.random() < .7: a["lemma"] = f(r)
    if r.random() < .7: a["tags"] = f(r)
    return el("match", a)
def sel(r, f=word): return el("match", {"lemma": f(r), "tags": "n.*"}, el(r.choice(["select", "remove"]), {"lemma": f(r)}))
def item(r, f=word, d=2):
    x = r.random()
    if d and x < .2: return el("or", None, *[match(r, f) for _ in range(r.choice([2, 3]))])
    if d and x < .25: return el("begin")
    return sel(r, f) if x < .5 else match(r, f)
def rule(r, f=word, extra=()):
    k = [item(r, f) for _ in range(r.choice([1, 2, 3, 4]))]
    for e in extra: k.insert(r.randrange(len(k) + 1), e)
    a = {}
    if r.random() < .6: a["weight"] = r.choice(["0.8", "1", "2.5"])
    if r.random() < .2: a["name"] = f(r)
    return el("rule", a, *k)

def main_(chk):
    S = {n: script(chk, n) for n in ("apertium-metalrx", "apertium-metalrx-to-lrx")}
    def put(name, t):
        p = os.path.join(scratch(), name)
        with open(p, "w", encoding="utf8") as f: f.write(t)
        return p
    def out(name):
        p = os.path.join(scratch(), name)
        if os.path.exists(p): os.unlink(p)
        return p
    def metalrx(r, c):
        n = r.choice([1, 2, 3]); defs, uses = [], []
        names = r.sample(["m1", "add pp", "é", "x.y"], n)
        for nm in names:
            np = r.choice([0, 1, 2, 4, 11])
            def f(r):
                if np and r.random() < .6: return r.choice(["", "a", "<", "&"]) + "{{p%d}}" % r.randint(1, np) + r.choice(["", "b", "s"]) + ("{{p%d}}" % r.randint(1, np) if r.random() < .2 else "")
                return word(r)
            defs.append((nm, np, [rule(r, f) for _ in range(r.choice([1, 1, 2, 3]))]))
        kids, used, tail = [], [], []
        for _ in range(r.choice([1, 3, 6])):
            if r.random() < .5: kids.append(rule(r))
            else:
                nm, np, rs = r.choice(defs); ps = {"p%d" % (i + 1): r.choice(VAL) for i in range(np)}
                kids.append(el("macro", dict(ps, name=nm))); c.ev("macro")
                for x in rs:
                    x = copy.deepcopy(x)
                    for q in x.iter():
                        for k in q.attrib:
                            for kk, v in ps.items(): q.attrib[k] = q.attrib[k].replace("{{%s}}" % kk, v)
                    tail.append(x)
        root = r.choice(["metalrx", "rules-file", "metalrx"])
        dm = el("def-macros", None, *[el("def-macro", {"name": nm, "npar": str(np)}, *rs) for nm, np, rs in defs])
        t = el(root, None, dm, el("rules", None, *kids))
        src = spread(r, text(t)); a, b = put("a", src), out("b")
        x = run(["python3", S["apertium-metalrx"], a, b], b"", env=ENV); c.evals += 1
        w = el("lrx" if root == "metalrx" else root, None, el("rules", None, *[k for k in kids if k.tag == "rule"], *tail))
        files = {"input": src}
        if x.rc or not os.path.exists(b): c.violation("metalrx", "exit %d: %r" % (x.rc, x.err[-400:]), **files); return
        if compare(c, "metalrx", open(b, "rb").read(), tree(w), files): c.seen(src); c.ev("metalrx")
    def to_lrx(r, c):
        seqs = {n: [item(r) for _ in range(r.choice([1, 2, 3]))] for n in r.sample(["np", "any words", "é", "s1"], r.choice([1, 2, 3]))}
        def seq():
            c.ev("seq"); return el("seq", {"n": r.choice(sorted(seqs))})
        def items(): return [seq() if r.random() < .3 else item(r) for _ in range(r.choice([1, 1, 2, 3]))]
        kids, want = [], []
        def ex(ks):
            o = []
            for k in ks:
                if k.tag == "seq": o += copy.deepcopy(seqs[k.get("n")])
                elif k.tag == "repeat": continue
                else: o.append(el(k.tag, dict(k.attrib), *ex(list(k))))
            return o
        for _ in range(r.choice([1, 2, 5])):
            a = {"weight": r.choice(["0.8", "1.0"])} if r.random() < .6 else {}
            if r.random() < .2: a["c"] = word(r)
            pre, post, x = items(), items(), r.random()
            if x < .3: kids.append(el("rule", a, *pre)); want.append(el("rule", a, *ex(pre)))
            elif x < .4:
                kids.append(el("rule", a, *pre, el("repeat", None, *items()), *post)); want.append(el("rule", a, *ex(pre), *ex(post))); c.ev("plain_repeat")
            else:
                up = r.choice([1, 1, 2, 3, 5]); fr = r.choice([None, 0, 1, up, r.randint(0, up)]); rep = items()
                if r.random() < .2: pre = []
                if r.random() < .2: post = []
                kids.append(el("rule", a, *pre, el("repeat", {"upto": str(up), "from": None if fr is None else str(fr)}, *rep), *post))
                for k in range(up, (1 if fr is None else fr) - 1, -1):
                    want.append(el("rule", a, *ex(pre), *(ex(rep) * k), *ex(post))); c.ev("repeats")
        ds = el("def-seqs", None, *[el("def-seq", {"n": n}, *v) for n, v in seqs.items()])
        t = el("metalrx", None, ds, el("rules", None, *kids))
        src = spread(r, text(t)); a, b = put("a", src), out("b c")
        x = run(["bash", S["apertium-metalrx-to-lrx"], a, b], b"", env=ENV); c.evals += 1
        files = {"input": src}
        if x.rc or not os.path.exists(b): c.violation("to-lrx", "exit %d: %r" % (x.rc, x.err[-400:]), **files); return
        # the order of a rule's own expansions does not matter, that of different rules is kept
        if compare(c, "metalrx-to-lrx", open(b, "rb").read(), tree(el("rules", None, *want)), files): c.seen(src); c.ev("metalrx-to-lrx")
    def case(r, i, c):
        (metalrx, to_lrx)[i % 2](r, c)
    chk.run_cases(case, chk.n(600, 12000))
    chk.min_evals = 400
if __name__ == "__main__": main(main_, "D02", "one case = one generated file of lexical-selection rules with macros (parameters with any characters) or sequences and repeats, whose expansion is compared, as a tree, with a reference expansion",
     ["sequences inside sequences and several repeats in one rule are not supported by the tool and not generated", "parameter values containing {{pN}} are not generated", "comments and white space between elements are not compared"])
