"""W01: apertium-wblank-attach / -detach."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *

def wbitems(v):
    return [x for x in (y.strip("; ") for y in v.split(";")) if x]

def attach_model(toks):
    out = []; stack = []
    for k, v in toks:
        if k == "wblank":
            if v == "/":
                if stack: stack.pop()
            else:
                cur = [w for s in stack for w in s]; new = []
                for w in wbitems(v):
                    if w not in cur and w not in new: new.append(w)
                stack.append(new)
        elif k == "lu":
            cur = [w for s in stack for w in s]
            if cur: out.append("[[%s]]" % "; ".join(cur))
            out.append("^%s$" % v)
        else:
            if k == "nul": stack = []
            out.append(S.untok([(k, v)]))
    return "".join(out)

def detach_model(toks):
    out = []; had = False
    for k, v in toks:
        out.append(S.untok([(k, v)]))
        if k == "wblank": had = True
        elif k == "nul": had = False
        elif k == "lu" and had: out.append("[[/]]"); had = False
    return "".join(out)

def lu(r):
    x = r.random()
    if x < .4: return S.word(r)
    if x < .5: return "*" + S.word(r)
    s = S.word(r) 
    for _ in range(r.randint(1, 3)): s += "/" + S.word(r, esc_p=.15) + S.tags(r, 1, 3)
    if r.random() < .1: s += r.choice(["[a]", "[[x]]", "]", "["])
    return s

NAMES = ["t:b:1", "t:i:2", "t:a:3f", "t:span:x y", "t:b:1", "A", "B", "é:😀", "t:a:x\\]y", "t:a:\\[\\^", "t:a:q\\/z", "t:u:\\\\"]
def spans(r, depth, out, balanced):
    for _ in range(r.choice([1, 1, 2, 3])):
        x = r.random()
        if x < .35 and depth < 5:
            k = r.choice([1, 1, 1, 2, 3])
            v = r.choice(["; ", ";", " ; "]).join(r.choice(NAMES) for _ in range(k))
            if r.random() < .08: v = r.choice([v + ";", ";" + v, " " + v + " "])
            out.append(("wblank", v))
            spans(r, depth + 1, out, balanced)
            if balanced or r.random() < .8: out.append(("wblank", "/"))
        elif x < .8: out.append(("lu", lu(r)))
        elif x < .9: out.append(("blank", S.blank(r)))
        elif not balanced: out.append(("wblank", "/"))
        t = S.text(r)
        if t: out.append(("text", t))

def main_(chk):
    ex = chk.build(["apertium-wblank-attach", "apertium-wblank-detach"])
    at, de = ex["apertium-wblank-attach"], ex["apertium-wblank-detach"]
    def go(c, exe, name, toks, exp, z):
        data = enc(S.untok(toks))
        res = run([exe] + (["-z"] if z else []), data)
        c.evals += 1
        if c.san(res, input=data): return None
        out = dec(res.out)
        if out != exp or res.rc:
            c.violation(name, "exit %d\ninput %r\n%s" % (res.rc, S.untok(toks)[:500], diff(exp, out)), input=data, expected=enc(exp), observed=res.out)
            return None
        return out
    def case(r, i, c):
        z = r.random() < .6
        balanced = r.random() < .7
        toks = []
        for k in range(r.choice([1, 1, 2, 4])):
            if k: toks.append(("nul", "\0"))
            spans(r, 0, toks, balanced)
            if r.random() < .01:   # long segments cross the input buffer
                for _ in range(400): spans(r, 1, toks, balanced)
        toks2 = S.tokenize(S.untok(toks))
        out = go(c, at, "attach" + ("" if balanced else "-unbalanced"), toks2, attach_model(toks2), z)
        c.ev("units", sum(k == "lu" for k, _ in toks2)); c.ev("spans", sum(k == "wblank" and v != "/" for k, v in toks2))
        c.ev("segments", 1 + sum(k == "nul" for k, _ in toks2))
        c.seen(S.untok(toks2))
        if out is None: return
        c.sample({"in": S.untok(toks)[:200], "attached": out[:300]})
        at_toks = S.tokenize(out)
        det = go(c, de, "detach", at_toks, detach_model(at_toks), z)
        if det is None: return
        # inverse: attaching the detached stream again gives the attached stream
        dt = S.tokenize(det)
        go(c, at, "attach-detach-inverse", dt, out, z)
        # arbitrary wblank placement straight into detach
        go(c, de, "detach", toks2, detach_model(toks2), z)
        if z and r.random() < .5:
            # a text broken off anywhere must not affect the next ones
            a = []; spans(r, 0, a, False)
            a = S.untok([t for t in a if t[0] != "nul"]); k = r.randrange(len(a) + 1) if a else 0
            a = a[:k]; m = len(a) - len(a.rstrip("\\"))
            if m % 2: a = a[:-1]
            b = []; spans(r, 0, b, balanced)
            b = S.tokenize(S.untok(b))
            for exe, name, model in ((at, "attach", attach_model), (de, "detach", detach_model)):
                data = enc(a + "\0" + S.untok(b)); res = run([exe, "-z"], data); c.evals += 1
                if c.san(res, input=data): return
                got = dec(res.out); exp = model(b)
                if res.rc or got.count("\0") != 1 or got.split("\0")[1] != exp:
                    c.violation(name + "-after-broken", "exit %d\nbroken text %r, then %r\n%s" % (res.rc, a[-200:], S.untok(b)[:300], diff(exp, got.split("\0")[-1])), input=data, observed=res.out); return
            c.ev("broken_texts")
        if r.random() < .3:
            # a text that just ends anywhere, also after a backslash: all of it but the complete word-bound blanks comes out
            a = []; spans(r, 0, a, False)
            a = S.untok(a); k = r.randrange(len(a) + 1); a = a[:k]
            if r.random() < .3: a += r.choice(["\\", "[\\", "[[t:b:1]]^a\\", "[[a\\", "^a/b<n>\\"]) if (len(a) - len(a.rstrip("\\"))) % 2 == 0 else ""
            bare = lambda t: re.sub(r"(\\.)|\[\[(?:\\.|[^\]\\])*\]\]", lambda m: m[1] or "", t, flags=re.S)
            for exe, name in ((at, "attach"), (de, "detach")):
                data = enc(a); res = run([exe] + (["-z"] if z else []), data); c.evals += 1
                if c.san(res, input=data): return
                got = dec(res.out)
                if res.rc or bare(got) != bare(a):
                    c.violation(name + "-broken-end", "exit %d\nbroken text %r\n%s" % (res.rc, a[-200:], diff(bare(a), bare(got))), input=data, observed=res.out); return
            c.ev("broken_ends")
    chk.run_cases(case, chk.n(1500, 15000)); chk.min_evals = 3000
if __name__ == "__main__": main(main_, "W01", "one case = one random stream with nested, adjacent, duplicate and multi-item word-bound spans, escapes, superblanks and NUL segments run through attach, detach, attach again, and detach alone; each output compared byte for byte with an independent model, and attach(detach(x)) = x for attached x; distinct by input",
     ["model in checks/W01.py"])
