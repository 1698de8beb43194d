"""T09: word-bound blanks stay with their words through the transfer stages."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from trxrun import *

def clip(p, part, side=None):
    return ("clip", {"pos": p, "side": side, "part": part} if side else {"pos": p, "part": part}, [])
def lit(v): return ("lit", {"v": v}, [])
def tag(v): return ("lit-tag", {"v": v}, [])
CATS = [("n", [(None, "n"), (None, "n.*")]), ("a", [(None, "adj")]), ("v", [(None, "v")])]

class Prov:
    """Rules whose output words are built from lemmas (which name the input
    word they come from), variables holding lemmas, and literals: 'slit' in
    rules (macros) over one word, 'mlit' in rules over several."""
    def __init__(self, r, kind):
        self.r, self.kind = r, kind
        self.vars = [("v%d" % i, "") for i in range(3)]; self.macros = []
        self.n = 1; self.single = True; self.ok = []
        if kind != "interchunk" and r.random() < .5: self.macros = [("m0", 1, self.body(1)), ("m1", 2, self.body(2))]
        rules = []
        if kind == "postchunk": pats = [[x] for x in r.sample(["c1", "c2", "c3", "c4"], r.randint(0, 3))]
        elif kind == "interchunk": pats = [[r.choice(["k1", "k2", "k3"]) for _ in range(r.randint(1, 3))] for _ in range(r.randint(0, 3))]
        else: pats = [[r.choice("nav") for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 4))]
        for p in pats:
            n = len(p) if kind != "postchunk" else int(p[0][1:])
            rules.append((p, self.body(n)))
        cats = CATS
        if kind == "interchunk": cats = [("k%d" % i, [(None, "K%d" % i)]) for i in (1, 2, 3)]
        if kind == "postchunk": cats = [("c%d" % i, [("c%d" % i, None)]) for i in (1, 2, 3, 4)]
        self.prog = {"kind": kind, "default": "chunk", "cats": cats, "attrs": [("a", ["x"])], "vars": self.vars, "lists": [], "macros": self.macros, "rules": rules}
        if not rules: self.prog = None
    def word(self):
        r = self.r; k = r.randint(1, self.n)
        return clip(k, r.choice(["lem", "lem", "lemh"]), r.choice(["sl", "tl", "tl"]) if self.kind == "transfer" else None)
    def src(self):
        r = self.r; x = r.random()
        if x < .55: return [self.word()]
        if x < .7: return [self.word(), self.word()]
        if x < .9 and self.ok: return [("var", {"n": r.choice(self.ok)}, [])]
        return [lit("slit" if self.single else "mlit")]
    def lu(self): return ("lu", {}, self.src() + [tag(self.r.choice(["n", "adj", "v"]))])
    def unit(self):
        r = self.r
        if r.random() < .15: return ("mlu", {}, [self.lu() for _ in range(r.randint(2, 3))])
        if r.random() < .15: return ("lu", {}, [clip(r.randint(1, self.n), "whole", "tl" if self.kind == "transfer" else None)])
        return self.lu()
    def let(self):
        r = self.r; v = r.choice(self.vars)[0]; s = self.src()
        a = ("append", {"n": v}, s) if v in self.ok and r.random() < .3 else ("let", {}, [("var", {"n": v}, []), s[0] if len(s) == 1 else ("concat", {}, s)])
        if v not in self.ok: self.ok.append(v)
        return a
    def body(self, n):
        r = self.r; self.n = n; self.single = n == 1
        if self.kind == "interchunk":
            ch = []
            for k in r.sample(range(1, n + 1), n):
                if ch: ch.append(("b", {}, []))
                ch.append(("chunk", {}, [clip(k, "lem"), clip(k, "tags"), clip(k, "chcontent")]))
            return [("out", {}, ch)]
        self.ok = []; ss = []
        if n > 1: self.ok = [v for v, _ in self.vars] if r.random() < .15 else []
        for _ in range(r.randint(1, 4)):
            if r.random() < .4: ss.append(self.let()); continue
            if self.macros and r.random() < .2:
                ss.append(("call-macro", {"n": "m0"}, [("with-param", {"pos": r.randint(1, n)}, [])]))
                continue
            us = []
            for _ in range(r.randint(1, 3)):
                if us and r.random() < .6: us.append(("b", {}, []))
                us.append(self.unit())
            if self.kind == "transfer":
                k = sum(u[0] != "b" for u in us)
                us = [("chunk", {"name": "c%d" % k}, [("tags", {}, [("tag", {}, [tag("K%d" % r.randint(1, 4))])])] + us)]
            ss.append(("out", {}, us))
        return ss

UNIT = re.compile(r"(\[\[(?:\\.|[^\]\\])*\]\])?\^((?:\\.|[^\$\\{])*)\$")
def units(s):
    """(set of word-bound blanks, text) of every innermost word."""
    out = []
    for m in UNIT.finditer(re.sub(r"\^(?:\\.|[^\$\\{])*\{|\}\$", "", s)):
        wb = m.group(1)
        out.append((frozenset(wb[2:-2].split("; ")) if wb else frozenset(), m.group(2)))
    return out
def leftovers(s): return re.sub(r"\s", "", UNIT.sub("", re.sub(r"\^(?:\\.|[^\$\\{])*\{|\}\$", "", s)))

def main_(chk):
    exes = chk.build(PROGS)
    def model(r, i, c):
        kind = ["transfer", "transfer", "postchunk", "postchunk", "interchunk"][i % 5]
        g = trx.Gen(r, kind, r.choice(["lu", "chunk"]))
        comp = Compiled(exes, g.prog, c)
        if not comp.ok: return
        for k in range(3):
            nob = kind == "transfer" and r.random() < .25
            it = trx.Interp(g.prog, False, trx.nobil if nob else trx.prebil)
            wb = r.choice([.3, .8])
            wf = (lambda r: trx.word_plain(r, wb)) if nob else (lambda r: trx.word_b(r, wb)) if kind == "transfer" else (lambda r: trx.chunk_word(r, wb))
            segs = trx.gen_segments(r, wf, r.choice([1, 1, 3]), prog=None if nob else g.prog, wb=wb)
            try: exp = it.run(segs)
            except trx.BadProgram: c.ev("discarded"); continue
            out = compare(c, comp, segs, exp, [], "-n" if nob else "-b", key="model-" + kind + ("-n" if nob else ""))
            if nob: c.ev("streams_nobil")
            c.ev("rule_applied", it.stats.get("rule_applied", 0))
            if out is not None:
                c.ev("input_wblanks", sum(trx.seg_text(s).count("[[") for s in segs)); c.ev("output_wblanks", out.count("[["))
                c.ev("combined", len(re.findall(r"\[\[[^\]]*; ", out)))
                if "[[" in out: c.seen((g.prog["rules"], out))
    def prov(r, i, c):
        g = {k: Prov(r, k) for k in ("transfer", "interchunk", "postchunk")}
        comps = {k: Compiled(exes, v.prog, c, k) for k, v in g.items() if v.prog}
        if not all(x.ok for x in comps.values()): return
        own = {}; s = ""; nxt = 1
        for _ in range(r.choice([1, 3, 8, 15])):
            if s: s += r.choice([" ", " ", "\n", "", "[<b>] ", ", "])
            k = str(nxt); nxt += 1
            own[k] = set()
            if r.random() < .7: own[k] = set(r.choice([["t:b:%s"], ["t:b:%s", "t:i:%s"], ["%sé\\]"], ["t:a\\;:%s"]])[j] % k for j in [0]) if r.random() < .7 else {"t:b:%s" % k, "t:i:%s" % k}
            if own[k]: s += "[[" + "; ".join(sorted(own[k])) + "]]"
            t = r.choice(["n", "n", "n><sg", "adj", "v", "x"])
            s += "^w%sz<%s>/w%sz<%s>$" % (k, t, k, r.choice([t, "n"])) if r.random() < .95 else "^*w%sz/*w%sz$" % (k, k)
        stage_in = s
        # literals of one-word rules: the words they were made from are unknown
        for k in ("transfer", "interchunk", "postchunk"):
            if k == "postchunk" and k not in comps: break
            if k in comps:
                res = comps[k].run(enc(stage_in), [], "-b"); c.evals += 1
                fl = dict(rules=comps[k].text, input=stage_in, observed=res.out)
                if c.san(res, **fl): return
                if res.rc: c.violation("exit-" + k, "exit %d" % res.rc, **fl); return
                out = dec(res.out)
            else: out = stage_in
            fl = dict(rules=comps[k].text if k in comps else "", input=stage_in, observed=out)
            joined = set().union(*[w for w, t in units(stage_in) if "+" in t])
            for wb, txt in units(out):
                ids = re.findall(r"w(\d+)z", txt)
                want = set().union(*[own[x] for x in ids]) if ids else set()
                c.ev("words")
                if wb: c.ev("words_with_wblank")
                if len(set(ids)) > 1: c.ev("words_from_several")
                # one part of a joined word takes the blanks of the whole
                loose = "slit" in txt
                if wb != want and not (want <= wb and (loose or wb - want <= joined)):
                    # a word built by a rule over one word always carries that word's blank
                    c.violation("owner-" + k, "%s: word %r carries %s, its input words have %s\ninput  %r\noutput %r" % (k, txt, sorted(wb), sorted(want), stage_in[:900], out[:900]), **fl); return
            lo = re.sub(r"\[<b>\]|,", "", leftovers(out))
            if lo: c.violation("stray-" + k, "left outside words: %r\noutput %r" % (lo, out[:900]), **fl); return
            if "[[" in out: c.seen((fl["rules"], out))
            if i < 30: c.sample({"stage": k, "in": stage_in[:160], "out": out[:160]})
            stage_in = out
    chk.run_cases(model, chk.n(700, 20000), "model")
    chk.run_cases(prov, chk.n(1200, 40000), "prov")
    chk.min_evals = 2500
if __name__ == "__main__": main(main_, "T09", "one case = (model) one random rules file over the whole rule language and streams dense in word-bound blanks against the reference interpreter, or (prov) a transfer, interchunk and postchunk rules file run as a pipeline on words whose lemmas name their own word-bound blanks: every word built by any stage must carry exactly the blanks of the words its lemmas come from; distinct = distinct (rules, output) with word-bound blanks",
     ["transfer with a bilingual dictionary of its own does not handle word-bound blanks (wblank-mode exists to convert such modes) and is not run here", "reference interpreter lib/trx.py"])
