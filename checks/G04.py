"""G04: tagger models survive being written and read."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
from chk import diff, dec
import tag, stream as S

def widen(r, d, n):
    """Many more tags than words need: long numbers in the file."""
    for k in range(n):
        nm = ("X%03d" % k) + ("é" if r.random() < .03 else "") + ("Y" * r.choice([70, 300]) if r.random() < .02 else "")
        d.labels.append((nm, r.random() < .3, [(None, "x%03d.*" % k)]))
    d.names = [b[0] for b in tag.BUILTIN] + [q[0] for q in d.labels] + [q[0] for q in d.mults]
    d.index = {q: k for k, q in enumerate(d.names)}
    if r.random() < .5:
        for _ in range(r.choice([1, 70])): d.forbid.append((r.choice(d.names[7:]), r.choice(d.names[7:])))
        d.forbid = list(dict.fromkeys(d.forbid))
    d.compile()

def rows(A, forbid):
    A = [list(q) for q in A]
    for a, b in forbid: A[a][b] = tag.ZERO
    for q in A:
        s = sum(q)
        for k in range(len(q)): q[k] = q[k] / s if s > 0 else 0
    return A
def banned(d, n):
    f = {(d.index[a], d.index[b]) for a, b in d.forbid}
    for a, bs in d.enforce:
        ok = {d.index[b] for b in bs}; f |= {(d.index[a], j) for j in range(n) if j not in ok}
    return f
def near(A, B, tol): return all(abs(x - y) <= tol * max(abs(x), abs(y)) + 1e-300 for p, q in zip(A, B) for x, y in zip(p, q))
HEAD = ["open", "forbid", "array", "index", "enforce", "prefer", "constants", "classes", "N"]
def head_diff(p, q): return [k for k in HEAD if getattr(p, k) != getattr(q, k)]

def main_(chk):
    ex = chk.build(["apertium-tagger", "apertium-tagger-apply-new-rules"])
    exe, anr = ex["apertium-tagger"], ex["apertium-tagger-apply-new-rules"]
    rt = chk.harness("roundtrip", "apertium-tagger")
    def load(path, kind): return (tag.ProbLSW if kind == "lsw" else tag.Prob)(open(path, "rb").read())
    def tagged(c, m, path, inp, opts, files):
        x = run([exe] + m.opts + ["-g"] + opts + [path], inp); c.evals += 1
        if c.san(x, input=inp, **files): return None
        return x.out
    def stat(r, i, c):
        kind = r.choice(["hmm", "hmm", "lsw"])
        d = tag.TagDef(r); big = r.random() < .3
        if big: widen(r, d, r.choice([30, 60, 130, 300]) if kind == "hmm" else r.choice([30, 60]))
        lex = tag.Lexicon(r, d, n=r.choice([5, 24, 150]))
        x, m = tag.train_hmm(r, exe, d, lex, iters=0 if big else None, lsw=kind == "lsw")
        files = {"tsx": m.text}
        if c.san(x, **files): return
        if x.rc: c.inconclusive += 1; return
        p0 = load(m.path, kind); files["model"] = p0.data
        # as the definition says
        names = ["TAG_" + q for q in d.names[:7]] + d.names[7:]
        if p0.array[:len(names)] != names: c.violation("names", "the tags are %r, the file defines %r" % (p0.array[:20], names[:20]), **files); return
        if p0.open != d.open or any(p0.index.get("TAG_" + q) != k for k, q in enumerate(d.names)):
            c.violation("names", "open class or tag index: %r / %r" % (sorted(p0.open), sorted(d.open)), **files); return
        if p0.forbid != [(d.index[a], d.index[b]) for a, b in d.forbid] or p0.enforce != [(d.index[a], [d.index[b] for b in bs]) for a, bs in d.enforce]:
            c.violation("rules", "forbid/enforce rules in the file: %r %r" % (p0.forbid, p0.enforce), **files); return
        if p0.prefer != [x for x in p0.prefer if x in [tag.tagstr(q) if "*" not in q else x for q in d.prefer]] or len(p0.prefer) != len(d.prefer):
            c.violation("rules", "preferences in the file: %r, defined %r" % (p0.prefer, d.prefer), **files); return
        c.ev("tags", p0.N); c.ev("classes", len(p0.classes))
        # hostile numbers
        if r.random() < .6 and kind == "hmm":
            rnd = lambda: r.choice([1e-10, 1.5e-10, 1e-300, 5e-324, 1.0, 0.1, 1 / 3, r.random(), 10 ** r.uniform(-40, 0), 0.0])
            p1 = p0.patch([[rnd() for _ in range(p0.N)] for _ in range(p0.N)], {k: r.choice([1.5e-10, 1.0, r.random(), 1 / 3, 10 ** r.uniform(-9, 0)]) for k in p0.B})
            c.ev("patched")
        elif kind == "lsw" and r.random() < .6:
            E = {k: r.choice([1.5e-10, 1 / 3, r.random(), 1e300, 10 ** r.uniform(-9, 9)]) for k in p0.D}
            p1 = p0.patch(E); c.ev("patched")
        else: p1 = p0
        with open(m.path, "wb") as f: f.write(p1.data)
        files["model"] = p1.data
        inp = "".join(m.stream(r, r.choice([1, 5] if big else [1, 10, 60])) for _ in range(2))
        opts = [f for f in ("-p", "-m") if r.random() < .3]
        before = tagged(c, m, m.path, inp, opts, files)
        if before is None: return
        crp = tag.put("r.crp", lex.corpus(r, r.choice([1, 5]))[0])
        cur = p1
        for step in range(r.choice([1, 2, 3])):
            x = run([exe] + m.opts + ["-r", 0, crp, m.path]); c.evals += 1
            if c.san(x, **files): return
            if x.rc: c.violation("retrain", "-r 0 failed: %r" % x.err[-300:], **files); return
            try: q = load(m.path, kind)
            except Exception as e: c.violation("format", "-r 0 wrote an unreadable model: %r" % e, **files); return
            files["after"] = q.data
            hd = head_diff(cur, q)
            if hd: c.violation("parts", "-r 0 changed %s: %s" % (hd[0], str((getattr(cur, hd[0]), getattr(q, hd[0])))[:600]), **files); return
            if kind == "hmm":
                if cur.B != q.B: c.violation("emissions", "-r 0 changed the emission probabilities: %s" % [(k, cur.B.get(k), q.B.get(k)) for k in set(cur.B) | set(q.B) if cur.B.get(k) != q.B.get(k)][:3], **files); return
                want = rows(cur.A, banned(d, cur.N))
                if not near(want, q.A, 1e-12): c.violation("transitions", "-r 0 changed the transition probabilities: %s" % [(a, b, want[a][b], q.A[a][b]) for a in range(q.N) for b in range(q.N) if abs(want[a][b] - q.A[a][b]) > 1e-12 * max(want[a][b], q.A[a][b])][:3], **files); return
                if near(cur.A, want, 1e-15): c.ev("unchanged_rows", q.N)
            else:
                if cur.D != q.D: c.violation("windows", "-r 0 changed the window parameters: %s" % [(k, cur.D.get(k), q.D.get(k)) for k in set(cur.D) | set(q.D) if cur.D.get(k) != q.D.get(k)][:3], **files); return
            if cur.data[cur.tail:] != q.data[q.tail:]:
                c.violation("patterns", "-r 0 changed the part of the file with the tag patterns and discards", **files); return
            if step == 0 and p1 is p0 or step:
                after = tagged(c, m, m.path, inp, opts, files)
                if after is None: return
                if after != before and p1 is p0 and (kind == "lsw" or p0.A == q.A): c.violation("tagging", "the model tags differently once rewritten:\n%s" % diff(dec(before), dec(after)), input=inp, **files); return
            c.ev("rewrites_" + kind); cur = q
        # new rules put into a model
        if kind == "hmm" and r.random() < .6:
            e = tag.TagDef.__new__(tag.TagDef); e.__dict__.update(d.__dict__)
            some = d.names[7:] + ["SENT", "CM"]
            e.forbid = list(dict.fromkeys((r.choice(some), r.choice(some)) for _ in range(r.choice([0, 1, 5]))))
            e.enforce = [(r.choice(some), sorted({r.choice(some) for _ in range(r.choice([1, 3]))})) for _ in range(r.choice([0, 0, 1, 2]))]
            e.prefer = [q for q in d.prefer if r.random() < .5]
            tsx = tag.put("n.tsx", e.xml()); out = os.path.join(scratch(), "n.prob")
            x = run([anr, "--filein", m.path, "--fileout", out, "--tsxfile", tsx]); c.evals += 1
            if c.san(x, newrules=e.xml(), **files): return
            if x.rc: c.violation("apply", "apply-new-rules failed: %r" % x.err[-300:], newrules=e.xml(), **files); return
            q = load(out, kind); files["after"] = q.data; files["newrules"] = e.xml()
            want = rows(cur.A, banned(e, cur.N))
            ok = q.forbid == [(d.index[a], d.index[b]) for a, b in e.forbid] and q.enforce == [(d.index[a], [d.index[b] for b in bs]) for a, bs in e.enforce] and len(q.prefer) == len(e.prefer)
            if not ok: c.violation("apply", "the new rules are not in the model: %r %r" % (q.forbid, q.enforce), **files); return
            hd = [k for k in head_diff(cur, q) if k not in ("forbid", "enforce", "prefer")]
            if hd or cur.B != q.B or cur.data[cur.tail:] != q.data[q.tail:]: c.violation("apply", "applying new rules changed %s" % (hd or "emissions or patterns"), **files); return
            if not near(want, q.A, 1e-12): c.violation("apply", "applying new rules: transitions %s" % [(a, b, want[a][b], q.A[a][b]) for a in range(q.N) for b in range(q.N) if abs(want[a][b] - q.A[a][b]) > 1e-12 * max(want[a][b], q.A[a][b])][:3], **files); return
            c.ev("new_rules")
        c.seen(cur.data)
        if i < 4: c.sample({"kind": kind, "tags": cur.N, "classes": len(cur.classes), "tagged": dec(before)[:80]})
    def streams(r, i, c):
        kind = "unigram%d" % (i % 3 + 1)
        m = tag.model(r, exe, kind, plus=.3)
        b = open(m.path, "rb").read(); files = {"model": b, "tagged": m.text}
        out = os.path.join(scratch(), "rt.model")
        x = run([rt, kind[-1], m.path, out]); c.evals += 1
        if c.san(x, **files): return
        if x.rc: c.violation("read", "%s: %r" % (kind, x.err[-300:]), **files); return
        a = open(out, "rb").read()
        if a != b: c.violation("bytes-" + kind, "the model changes when read and written (%d -> %d bytes)" % (len(b), len(a)), after=a, **files); return
        c.ev("rewrites_" + kind); c.seen(b)
        if i < 3: c.sample({"kind": kind, "bytes": len(b)})
    chk.run_cases(stat, chk.n(330, 6000), "stat")
    chk.run_cases(streams, chk.n(150, 3000), "stream")
    chk.min_evals = 800
if __name__ == "__main__": main(main_, "G04", "one case = one generated HMM or sliding-window model (sometimes with hundreds of tags and arbitrary doubles in its tables) compared with its definition and rewritten 1-3 times by retraining with zero iterations, sometimes given new rules, every part of the file and the tagging compared; or one unigram model read and written again, bytes compared",
     ["retraining with zero iterations applies the model's own forbid and enforce rules and normalises the rows, so transitions may move by rounding"])
