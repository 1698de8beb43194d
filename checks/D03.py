"""D03: default-equivalent conversion leaves exactly one translation per direction."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dix import *
import copy

def main_(chk):
    S = script(chk, "apertium-translate-to-default-equivalent")
    OLD = os.path.join(REPO, "apertium", "new2old.xsl")
    def case(r, i, c):
        def cond():
            x = r.choice(["0", "1", "2", "first", "big house", "D", "xD", "é"])
            return x + " D" if r.random() < .5 else x
        def entry(r):
            a = {}; x = r.random()
            if x < .2: a["slr"] = cond()
            elif x < .4: a["srl"] = cond()
            elif x < .7: a["slr"], a["srl"] = cond(), cond()
            if r.random() < .3:
                if x < .2: a["r"] = "LR"
                elif x < .4: a["r"] = "RL"
                elif x >= .7: a["r"] = r.choice(["LR", "RL"])
            for k, v in (("lm", word(r)), ("i", "yes"), ("w", "1.5"), ("v", "val"), ("c", word(r))):
                if r.random() < .15: a[k] = v
            return el("e", a, *body(r))
        t = dictionary(r, entry); src = spread(r, text(t))
        a = os.path.join(scratch(), "a b"); b = os.path.join(scratch(), "b")
        with open(a, "w", encoding="utf8") as f: f.write(src)
        if os.path.exists(b): os.unlink(b)
        old = i % 4 == 3                         # the older style sheet does the same
        x = run(["xsltproc", "-o", b, OLD, a] if old else ["bash", S, a, b], b"", env=ENV); c.evals += 1
        if old: c.ev("new2old")
        w = copy.deepcopy(t)
        for s in w.findall("section"):
            for e in list(s):
                l, q, rr = e.attrib.pop("slr", None), e.attrib.pop("srl", None), e.get("r")
                if l is None and q is None: c.ev("unmarked"); continue
                # directions in which the entry may be used
                lr = rr != "RL" and (l is None or l.endswith(" D"))
                rl = rr != "LR" and (q is None or q.endswith(" D"))
                e.attrib.pop("r", None)
                c.ev("both" if lr and rl else "LR" if lr else "RL" if rl else "none")
                if not lr and not rl: s.remove(e)
                elif not rl: e.set("r", "LR")
                elif not lr: e.set("r", "RL")
        files = {"input": src}; key = "new2old" if old else "default-equivalent"
        if x.rc or not os.path.exists(b): c.violation(key, "exit %d: %r" % (x.rc, x.err[-400:]), **files); return
        if compare(c, key, open(b, "rb").read(), tree(w), files): c.seen(src)
    chk.run_cases(case, chk.n(500, 10000))
    chk.min_evals = 300
if __name__ == "__main__": main(main_, "D03", "one case = one generated bilingual dictionary with slr/srl markers, converted and compared, as a tree, with a reference conversion",
     ["a marker for a direction which the entry's own restriction already excludes is not generated", "markers inside paradigms are left alone"])
