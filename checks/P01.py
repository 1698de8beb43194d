"""P01: apertium-pretransfer against an independent reading of the stream."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *

def parts_of(lu, compounds):
    """[(lemma, tags)], queue: the unit's parts and the invariable queue."""
    parts = []; queue = ""; i = 0; n = len(lu)
    lem = []; tg = []; q = []; state = "lem"
    def end():
        parts.append(("".join(lem), "".join(tg))); lem.clear(); tg.clear()
    seps = []
    first = True
    while i < n:
        c = lu[i]
        tok = lu[i:i+2] if c == "\\" and i + 1 < n else c
        if c == "<":
            j = lu.index(">", i); tok = lu[i:j+1]
            tg.append(tok); state = "tag"
        elif c == "#" and state == "tag": q.append(c); state = "q"
        elif c == "+" and state in ("tag", "q"):
            end(); seps.append("+"); state = "lem"; first = False
        elif c == "~" and state == "tag" and compounds:
            end(); seps.append("~"); state = "lem"; first = False
        elif c == "~" and state == "lem" and not first and compounds:
            end(); seps.append("~")
        elif c == "+" and state == "lem" and not first:
            end(); seps.append("+")
        elif state == "q": q.append(tok)
        elif state == "tag": tg.append(tok)   # material between or after tags stays put
        else: lem.append(tok)
        i += len(tok)
    end()
    return parts, seps, "".join(q)

def model(toks, surface, compounds):
    out = []; wb = ""
    for k, v in toks:
        if k == "wblank":
            wb = "[[%s]]" % v; out.append(wb)
        elif k == "lu":
            if surface: v = v[len(S.split_unescaped(v, "/")[0]) + 1:]
            parts, seps, q = parts_of(v, compounds)
            l, t = parts[0]
            s = "^" + l + q + t
            for sep, (l, t) in zip(seps, parts[1:]):
                s += ("$ " if sep == "+" else "$") + wb + "^" + l + t
            out.append(s + "$"); wb = ""
        else:
            out.append(S.untok([(k, v)])); wb = ""
    return "".join(out)

def lemma(r, first):
    w = S.word(r, esc_p=0.12)
    if r.random() < 0.1: w += r.choice([" ", "-", "'", "."]) + S.word(r)
    if r.random() < 0.02: w += "".join(r.choice([" ", "", "-"]) + S.word(r, esc_p=0.05) for _ in range(r.choice([5, 30, 150])))
    if first and r.random() < 0.06: w = r.choice(["~", "*", "@"]) .replace("@", "\\@")+ w
    if first and r.random() < 0.04: w += "#" + " " + S.word(r)
    if first and r.random() < 0.03: w += "+" + S.word(r)
    if r.random() < 0.04: w += r.choice(["\\#", "\\+", "\\~"])
    return w

def qword(r):
    w = S.word(r)
    if r.random() < .15: w += r.choice(["~", "~" + S.word(r), "#", "# b", "\\+c", "\\<", "-", "'"])
    return w

def gen_lu(r):
    if r.random() < 0.08: return "*" + S.word(r)
    n = r.choice([1, 1, 1, 2, 2, 3, 4]) if r.random() < .97 else r.choice([8, 20])
    s = lemma(r, True) + S.tags(r, 1, 4 if r.random() < .97 else 40)
    for k in range(1, n):
        if r.random() < 0.12: s += "# " + qword(r)
        if r.random() < 0.2 and "#" not in s: s += "~"
        else: s += "+"
        s += lemma(r, False) + S.tags(r, 1, 3)
    x = r.random()
    if x < 0.15: s += "# " + qword(r)
    elif x < 0.2: s += "# " + qword(r) + " " + qword(r)
    return s

def gen_seg(r, surface):
    toks = []
    for _ in range(r.choice([0, 1, 2, 4, 8]) if r.random() < .97 else 60):
        x = r.random()
        if x < 0.55:
            if r.random() < 0.3: toks.append(("wblank", S.wblank(r)))
            lu = gen_lu(r)
            if surface: lu = S.word(r, esc_p=0.2) + "/" + lu
            toks.append(("lu", lu))
        elif x < 0.75: toks.append(("blank", S.blank(r)))
        t = S.text(r)
        if t: toks.append(("text", t))
    return toks

def main_(chk):
    exe = chk.build(["apertium-pretransfer"])["apertium-pretransfer"]
    def case(r, i, c):
        opts = []
        surface = r.random() < 0.25; compounds = r.random() < 0.4
        if surface: opts.append(r.choice(["-n", "--no-surface-forms"]))
        if compounds: opts.append(r.choice(["-e", "--compounds"]))
        segs = [gen_seg(r, surface) for _ in range(r.choice([1, 1, 2, 4]))]
        if r.random() < 0.5: opts.append("-z")
        toks = []
        for k, s in enumerate(segs):
            if k: toks.append(("nul", "\0"))
            toks += s
        inp = S.untok(toks); exp = model(toks, surface, compounds)
        cmd = [exe] + opts; data = enc(inp)
        if r.random() < 0.15:
            p = os.path.join(scratch(), "in.txt"); open(p, "wb").write(data)
            q = os.path.join(scratch(), "out.txt")
            if r.random() < 0.5: cmd += [p, q]; res = run(cmd); res.out = open(q, "rb").read() if os.path.exists(q) else b""
            else: cmd += [p]; res = run(cmd)
        else: res = run(cmd, data)
        c.evals += 1
        nlu = sum(1 for k, _ in toks if k == "lu")
        c.ev("units", nlu); c.ev("segments", len(segs)); c.ev("blanks", sum(1 for k, _ in toks if k == "blank"))
        c.ev("units_split", exp.count("^") - inp.count("^"))
        if nlu: c.seen(inp)
        if c.san(res, input=data): return
        if res.rc != 0:
            c.violation("exit-status", "exit %d on a well-formed stream\n%s" % (res.rc, dec(res.err)[:500]), input=data); return
        out = dec(res.out)
        if out != exp:
            c.violation("output" + ("-n" if surface else "") + ("-e" if compounds else ""),
                        "options %s\ninput %r\n%s" % (opts, inp[:600], diff(exp, out)), input=data, expected=enc(exp), observed=res.out)
        c.sample({"opts": opts, "in": inp[:200], "out": out[:200]})
    chk.run_cases(case, chk.n(1800, 30000))
    chk.min_evals = 1000
if __name__ == "__main__": main(main_, "P01", "one case = one random well-formed tagged stream (parts joined by + and ~, queues, escapes, word-bound blanks, superblanks, NUL segments) through the real program under ASan+UBSan, compared byte for byte with an independent token-level model; non-trivial = contains a lexical unit, distinct by input",
     ["model in checks/P01.py", "lttoolbox and ICU are trusted"])
