"""D05: the dictionaries of lexical choice (word -> word with senses -> translation)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dix import *
import copy

XSL = os.path.join(REPO, "apertium")
def put_side(tag, src, sense):
    """A side of a pair with the content of src, marked with a sense before its symbols."""
    items = ([src.text] if src.text else [])
    for k in src:
        t = k.tail; k = copy.deepcopy(k); k.tail = None; items.append(k)
        if t: items.append(t)
    if sense is None: return el(tag, None, *items)
    syms = [k for k in items if not isinstance(k, str) and k.tag == "s"]
    return el(tag, None, *[k for k in items if isinstance(k, str) or k.tag != "s"], "__" + sense, *syms)

def main_(chk):
    if not shutil.which("xsltproc"): raise SystemExit("no xsltproc")
    def case(r, i, c):
        def entry(r):
            a = {}
            for k in ("slr", "srl"):
                if r.random() < .4: a[k] = r.choice(["0", "1", "first D", "big house", "D", "é", "x<y&z"])
            if r.random() < .35: a["r"] = r.choice(["LR", "RL"])
            if r.random() < .15: a["i"] = r.choice(["yes", "yes", "no"])
            for k, v in (("lm", word(r)), ("c", word(r))):
                if r.random() < .15: a[k] = v
            return el("e", a, *body(r))
        t = dictionary(r, entry); src = spread(r, text(t)); r2l = r.choice([None, "yes", "yes", "no"])
        p = os.path.join(scratch(), "a")
        with open(p, "w", encoding="utf8") as f: f.write(src)
        yes = r2l == "yes"                     # from left to right
        near, far, mark, bad = ("l", "r", "slr", "RL") if yes else ("r", "l", "srl", "LR")
        for sheet in ("lexchoice.xsl", "lexchoicebil.xsl"):
            cmd = ["xsltproc"] + (["--stringparam", "r2l", r2l] if r2l else []) + [os.path.join(XSL, sheet), p]
            x = run(cmd, b"", env=ENV); c.evals += 1
            w = copy.deepcopy(t)
            for par in list(w.iter()):
                for e in list(par):
                    if e.tag != "e": continue
                    if e.get("i") == "yes" or e.get("r") == bad: par.remove(e); c.ev("left_out"); continue
                    sense = e.get(mark); e.attrib.clear(); c.ev("marked" if sense else "unmarked")
                    for j, k in enumerate(list(e)):
                        if k.tag == "p": n, f_ = k.find(near), k.find(far)
                        elif k.tag == "i": n = f_ = k
                        else: continue
                        l, rr = (n, n) if sheet == "lexchoice.xsl" else (n, f_)
                        e[j] = el("p", None, put_side("l", l, sense if sheet != "lexchoice.xsl" else None),
                                  put_side("r", rr, sense if sheet == "lexchoice.xsl" else None))
            files = {"input": src, "command": " ".join(cmd)}
            if x.rc: c.violation(sheet, "exit %d: %r" % (x.rc, x.err[-300:]), **files); return
            if not compare(c, sheet, x.out, tree(w), files): return
            c.ev(sheet)
        c.seen(src)
        if i < 6: c.sample({"r2l": r2l, "input": src[:300]})
    chk.run_cases(case, chk.n(500, 10000))
    chk.min_evals = 300
if __name__ == "__main__": main(main_, "D05", "one case = one generated bilingual dictionary with sense marks, turned into the dictionary of senses and the bilingual one, in one direction; both compared, as trees, with a reference conversion",
     ["white space between elements and comments are not compared"])
