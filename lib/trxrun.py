"""Runs a generated transfer program through the real compiler and stage."""
from chk import *
import trx
STAGE = {"transfer": "apertium-transfer", "interchunk": "apertium-interchunk", "postchunk": "apertium-postchunk"}
PROGS = ["apertium-preprocess-transfer"] + list(STAGE.values())

class Compiled:
    def __init__(self, exes, prog, c, tag=""):
        self.exes, self.prog = exes, prog
        d = scratch()
        self.xml = os.path.join(d, "rules%s.xml" % tag); self.bin = os.path.join(d, "rules%s.bin" % tag)
        self.text = trx.to_xml(prog)
        with open(self.xml, "w") as f: f.write(self.text)
        r = run([exes["apertium-preprocess-transfer"], self.xml, self.bin])
        self.ok = True
        if c.san(r, rules=self.text): self.ok = False
        elif r.rc != 0:
            c.violation("preprocess-exit", "preprocess-transfer failed (%d) on a valid rules file:\n%s" % (r.rc, dec(r.err)[:800]), rules=self.text)
            self.ok = False
    def run(self, data, opts=(), mode="-b", extra=()):
        k = self.prog["kind"]
        exe = self.exes[STAGE[k]]
        if k == "transfer": cmd = [exe] + list(opts) + ([mode] if mode else []) + [self.xml, self.bin] + list(extra)
        else: cmd = [exe] + list(opts) + [self.xml, self.bin]
        return run(cmd, data)

def compare(c, comp, segs, exp, opts, mode="-b", key="output", extra=()):
    """Run the segments (NUL separated when more than one) and compare."""
    null = len(segs) > 1
    o = list(opts) + (["-z"] if null else [])
    data = enc("\0".join(trx.seg_text(s) for s in segs))
    res = comp.run(data, o, mode, extra)
    c.evals += 1
    if c.san(res, rules=comp.text, input=data): return None
    if res.rc != 0:
        c.violation("exit-status", "exit %d\n%s" % (res.rc, dec(res.err)[:800]), rules=comp.text, input=data); return None
    out = dec(res.out)
    # with null flush every segment is ended by a NUL, the last one included
    want = "".join(e + "\0" for e in exp) if null else exp[0]
    if out != want and not (null and out.rstrip("\0") == want.rstrip("\0") and out.count("\0") >= want.count("\0")):
        c.violation(key, "options %s %s\nrules: see file\ninput %r\n%s" % (o, mode, dec(data)[:800], diff(want, out)),
                    rules=comp.text, input=data, expected=enc(want), observed=res.out)
        return None
    return out
