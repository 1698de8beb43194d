"""T07: segments of a null-flushed stream are processed independently."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from trxrun import *
import importlib.util, select, subprocess, time, fcntl
import core, caps, tag

def gens(name):
    spec = importlib.util.spec_from_file_location("chk" + name, os.path.join(os.path.dirname(os.path.abspath(__file__)), name + ".py"))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m
P01, W01 = gens("P01"), gens("W01")

def long_blank(r):
    return "[%s]" % ("x<a> " * r.choice([1, 20, 900, 2000]))

class Live:
    """A long-running server process, fed one segment at a time."""
    def __init__(self, cmd, env=None):
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env or core.ENV, cwd=scratch())
        fl = fcntl.fcntl(self.p.stdout, fcntl.F_GETFL); fcntl.fcntl(self.p.stdout, fcntl.F_SETFL, fl | os.O_NONBLOCK)
        self.buf = b""
    def ask(self, data, limit):
        """Output up to the next NUL, or None if none comes."""
        try: self.p.stdin.write(data); self.p.stdin.flush()
        except BrokenPipeError: return None
        end = time.time() + limit
        while b"\0" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r: return None
            x = os.read(self.p.stdout.fileno(), 1 << 16)
            if not x: return None
            self.buf += x
        a, self.buf = self.buf.split(b"\0", 1)
        return a + b"\0"
    def close(self):
        try: self.p.stdin.close()
        except BrokenPipeError: pass
        self.p.kill(); self.p.wait(); self.p.stdout.close()

NEEDED = PROGS + ["apertium-pretransfer", "apertium-posttransfer", "apertium-wblank-attach", "apertium-wblank-detach", "apertium-extract-caps", "apertium-restore-caps", "apertium-compile-caps", "apertium-tagger"]
KINDS = ["transfer", "transfer-n", "interchunk", "postchunk", "pretransfer", "posttransfer", "attach", "detach", "extract", "restore"] + ["tagger-" + k for k in tag.KINDS]
WEIGHT = ["transfer"] * 4 + ["interchunk"] * 2 + ["postchunk"] * 3 + KINDS
def make_setup(exes):
    def setup(r, c, kind):
        """(command, segment generator) or None."""
        if kind in ("transfer", "transfer-n", "interchunk", "postchunk"):
            k = kind.split("-")[0]
            g = trx.Gen(r, k, r.choice(["lu", "chunk"]))
            comp = Compiled(exes, g.prog, c)
            if not comp.ok: return None
            if k == "transfer": cmd = [exes["apertium-transfer"], "-z", "-b" if kind == "transfer" else "-n", comp.xml, comp.bin]
            else: cmd = [exes["apertium-" + k], "-z", comp.xml, comp.bin]
            wb = r.choice([0, .4])
            wf = {"transfer": lambda r: trx.word_b(r, wb), "transfer-n": trx.word_plain}.get(kind, lambda r: trx.chunk_word(r, wb))
            def seg(r):
                s = trx.gen_segments(r, wf, 1, r.choice([1, 4, 12]), None if kind == "transfer-n" else g.prog)
                return trx.seg_text(s[0]) if r.random() < .85 else r.choice(["", " ", "[<p>]\n", trx.gen_blank(r)])
            def usable(segs):
                try: trx.Interp(g.prog, False, trx.nobil if kind == "transfer-n" else trx.prebil).run([([], s) for s in segs])
                except Exception: pass
                return True
            return cmd, seg, comp.text
        if kind == "pretransfer":
            sf = r.random() < .3
            return [exes["apertium-pretransfer"], "-z"] + (["-n"] if sf else []) + (["-e"] if r.random() < .5 else []), lambda r: S.untok(P01.gen_seg(r, sf)) + (long_blank(r) if r.random() < .2 else ""), ""
        if kind == "posttransfer":
            return [exes["apertium-posttransfer"], "-z"], lambda r: "".join(r.choice([" ", "  ", "a", "[x  y]", "\n", "   ", "^a b$", "\t ", "\\ "]) for _ in range(r.choice([0, 1, 5, 30]))), ""
        if kind in ("attach", "detach"):
            def seg(r):
                toks = []; W01.spans(r, 0, toks, r.random() < .4)
                if r.random() < .5: toks.append(("wblank", r.choice(["t:b:1", "/", "A; B"])))
                return S.untok(toks)
            return [exes["apertium-wblank-" + kind], "-z"], seg, ""
        if kind == "extract":
            return [exes["apertium-extract-caps"], "-z"] + (["-s"] if r.random() < .5 else []), lambda r: caps.extract_stream(r), ""
        if kind == "restore":
            text = caps.to_xml(caps.gen_rules(r))
            xml = os.path.join(scratch(), "r.crx"); b = os.path.join(scratch(), "r.bin")
            with open(xml, "w") as f: f.write(text)
            rr = run([exes["apertium-compile-caps"], xml, b])
            if c.san(rr, rules=text): return None
            return [exes["apertium-restore-caps"], "-z", b], lambda r: caps.restore_stream(r), text
        if kind.startswith("tagger-"):
            m = tag.model(r, exes["apertium-tagger"], kind[7:])
            return [exes["apertium-tagger"], "-z"] + m.options(r) + [m.path], lambda r: m.stream(r), m.text
    return setup

def main_(chk):
    exes = chk.build(NEEDED)
    setup = make_setup(exes)
    def case(r, i, c):
        kind = WEIGHT[i % len(WEIGHT)]
        st = setup(r, c, kind)
        if not st: return
        cmd, gen, text = st
        n = r.choice([2, 3, 5, 9])
        segs = [enc(gen(r)) for _ in range(n)]
        if r.random() < .3: segs[r.randrange(n)] = b""
        if r.random() < .3: segs.append(segs[0])
        files = {"rules": text, "input": b"\0".join(segs) + b"\0"}
        alone = []
        for s in dict.fromkeys(segs):
            x = run(cmd, s + b"\0"); c.evals += 1
            if c.san(x, **files): return
            alone.append(x.out)
        fresh = dict(zip(dict.fromkeys(segs), alone))
        for s, o in fresh.items():
            nul = o.count(b"\0")
            # a program may end a stream that has ended with a further NUL
            if nul not in (1, 2) or (nul == 2 and not o.endswith(b"\0\0")):
                c.violation("nul-" + kind, "one segment gave %d NULs: %r -> %r" % (nul, s[:300], o[:300]), **files); return
        cut = lambda o: o[:o.index(b"\0") + 1]
        want = b"".join(cut(fresh[s]) for s in segs)
        x = run(cmd, b"\0".join(segs) + b"\0")
        c.evals += 1
        if c.san(x, **files): return
        if x.out not in (want, want + b"\0"):
            c.violation("segments-" + kind, "segments %s\n%s" % (segs[:6], diff(dec(want), dec(x.out))), expected=want, observed=x.out, **files); return
        c.ev("segments_" + kind, len(segs)); c.seen((kind, want))
        if r.random() < .35:
            for limit in (30, 90):
                L = Live([str(y) for y in cmd]); bad = None
                try:
                    for k, s in enumerate(segs):
                        a = L.ask(s + b"\0", limit)
                        if a != cut(fresh[s]): bad = (k, a); break
                finally: L.close()
                if bad is None or bad[1] is not None: break
            c.evals += 1; c.ev("live_servers"); c.ev("live_answers", len(segs))
            if bad: c.violation("flush-" + kind, "segment %d %r: the answer %r did not arrive before more input (got %r)" % (bad[0], segs[bad[0]][:200], cut(fresh[segs[bad[0]]])[:200], bad[1]), **files)
        if i < 40: c.sample({"program": kind, "segments": [dec(s)[:80] for s in segs[:3]]})
    chk.run_cases(case, chk.n(520, 15000))
    chk.min_evals = 1000
if __name__ == "__main__": main(main_, "T07", "one case = one program with generated rules (or model) and 2-10 segments: the output for the NUL-separated sequence must be the concatenation of the outputs of fresh processes, one per segment, and a live server fed one segment at a time over a pipe must answer each before it gets more; distinct by program and output",
     ["the program itself, freshly started, is the reference"])
