"""T02: numbered blanks go through the rule stages exactly once and in order."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from trxrun import *
MARK = re.compile(r"(?<!\\)(?:\[\d+(?:\\.|[^\]\\])*\]|;\d+;)", re.S)

class Marks:
    def __init__(self, r): self.r, self.k = r, 0
    def one(self):
        self.k += 1
        if self.r.random() < .04: return "[%d" % self.k + "".join(self.r.choice(["a", "<b>", "\\]", " ", "é"]) for _ in range(self.r.choice([30, 80, 300, 3000]))) + "]"
        return self.r.choice(["[%d]", "[%d]", ";%d;", "[%d<b>]", "[%d \n]", "[%d\\]]", "[%d\\[\\\\]", "[%d^a$]", "[%d}$]"]) % self.k
    def blank(self):
        r = self.r; x = r.random()
        if x < .25: return " "
        if x < .3: return ""
        s = ""
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            m = self.one()
            s += r.choice(["", " ", "\n"]) + m
        return s + r.choice(["", " ", " "])

def marks(s): return MARK.findall(s)

def main_(chk):
    exes = chk.build(PROGS)
    def case(r, i, c):
        kind = ["transfer", "interchunk", "postchunk"][i % 3]
        g = trx.Gen(r, kind, r.choice(["lu", "chunk"]), vb=False)
        comp = Compiled(exes, g.prog, c)
        if not comp.ok: return
        for k in range(2):
            M = Marks(r)
            segs = []
            nob = kind == "transfer" and r.random() < .2
            for _ in range(r.choice([1, 1, 2, 3])):
                toks = []
                todo = []
                for _ in range(r.choice([0, 3, 8, 25])):
                    if not nob and not todo and r.random() < .3: todo = trx.guided(r, g.prog)
                    gw = todo.pop(0) if todo else None
                    if gw and kind == "transfer" and gw[1]: w = "%s%s/%s" % (gw[0], "".join("<%s>" % x for x in gw[1]), trx.tlword(r))
                    elif gw and kind == "interchunk": w = trx.chunk_word(r, 0, (gw[0], gw[1] or ["SN"]))
                    elif kind == "transfer": w = trx.word_plain(r) if nob else trx.word_b(r, 0)
                    else:
                        w = trx.chunk_word(r)
                        if kind == "postchunk":
                            h = w[:w.index("{")] if "\\{" not in w else "a<SN>"
                            n = r.choice([0, 1, 2, 3, 3, 8])
                            body = r.choice(["", M.blank()])
                            for j in range(n): body += (M.blank() if j else "") + "^" + trx.word_plain(r) + "$"
                            w = h + "{" + body + r.choice(["", M.blank()]) + "}"
                    toks.append([None, w])
                # number the outer blanks and the inner ones in reading order
                M2 = Marks(r); M2.k = M.k; out = []
                for _, w in toks:
                    b = M2.blank()
                    def renum(m): M2.k += 1; return re.sub(r"\d+", str(M2.k), m.group(0), count=1)
                    if kind == "postchunk":
                        h, body = trx.split1(w, "{")
                        w = h + "{" + MARK.sub(renum, body)
                    out.append((b, w))
                tail = M2.blank(); M.k = M2.k
                segs.append((out, tail))
            it = trx.Interp(g.prog, False, trx.nobil if nob else trx.prebil)
            try: it.run(segs)          # only to leave out rules that misuse reject
            except trx.BadProgram: c.ev("discarded"); continue
            null = len(segs) > 1
            data = enc("\0".join(trx.seg_text(s) for s in segs))
            res = comp.run(data, ["-z"] if null else [], None if kind != "transfer" else "-n" if nob else "-b")
            c.evals += 1
            if c.san(res, rules=comp.text, input=data): return
            if res.rc != 0:
                c.violation("exit-status", "exit %d" % res.rc, rules=comp.text, input=data); return
            outs = dec(res.out).split("\0")
            for j, s in enumerate(segs):
                want = marks(trx.seg_text(s)); got = marks(outs[j]) if j < len(outs) else None
                c.ev("blanks", len(want))
                if want != got:
                    lost = [m for m in want if m not in (got or [])]
                    c.violation("blanks-" + kind, "segment %d: lost %s; got %s; wanted %s\ninput %r\noutput %r" % (j, lost, got, want, dec(data)[:800], dec(res.out)[:800]),
                                rules=comp.text, input=data, observed=res.out)
                    return
            if it.stats.get("rule_applied"): c.seen((g.prog["rules"], data))
            for n in ("rule_applied", "reject", "reject_shift", "default_word", "b"): c.ev(n, it.stats.get(n, 0))
            if k == 0: c.sample({"stage": kind, "in": dec(data)[:200], "out": dec(res.out)[:200]})
    chk.run_cases(case, chk.n(1800, 60000))
    chk.min_evals = 1500
if __name__ == "__main__": main(main_, "T02", "one case = one random rules file for transfer, interchunk or postchunk and a stream whose blanks carry numbers (superblanks and bare text, outside words and inside chunks); a conservation monitor requires every numbered blank exactly once and in order in the output of its segment; non-trivial = at least one rule applied, distinct by rules and input",
     ["<b/> is only used to output blanks"])
