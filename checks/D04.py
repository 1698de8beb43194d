"""D04: the edit-distance transducer accepts exactly the pairs within the distance, with the right weights."""
import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from dix import *
from functools import lru_cache

OTHER = "@_UNKNOWN_SYMBOL_@"; INF = float("inf")
def main_(chk):
    S = script(chk, "apertium-editdist")
    def case(r, i, c):
        base = r.sample(["a", "b", "ñ", "語", "A", "'", "𐐀", "~", "0", "@", "#"], r.choice([1, 2, 2, 3, 3, 4]))
        d = r.choice([1, 1, 2, 2, 3, 3, 4]); swap = r.random() < .5; elim = r.random() < .6
        eps = r.choice(["@0@", "@0@", "<e>"]); W = lambda: r.choice([0.0, 0.25, 0.5, 1.0, 1.5, 3.0, 7.0])
        alpha, excl, subs, swaps = {}, set(), {}, {}
        opts, pos = [], []
        lines = []
        # alphabet: specification file, command line, optimised-lookup header
        spec = r.random() < .7
        inspec = [x for x in base if x != "~" and r.random() < .7] if spec else []
        if spec and len(base) > 1 and r.random() < .4:
            x = r.choice(base)
            if x != "~": excl.add(x); lines.append("~" + x)
        for x in inspec:
            w = W() if r.random() < .5 else 0.0
            lines.append(x + "\t%s" % w if w or r.random() < .1 else x); alpha[x] = w
        r.shuffle(lines)
        known = set(inspec)
        if spec and inspec and r.random() < .7:
            lines.append("@@")
            for _ in range(r.choice([1, 2, 4])):
                if swap and len(inspec) > 1 and r.random() < .3:
                    p, q = r.sample(inspec, 2); k = ((p, q), (q, p)); w = W()
                    lines.append("%s,%s\t%s,%s\t%s" % (p, q, q, p, w)); swaps.setdefault(k, w)
                else:
                    p, q = r.choice(inspec + [eps]), r.choice(inspec + [eps])
                    if p == q: continue
                    w = W(); lines.append("%s\t%s\t%s" % (p, q, w)); subs.setdefault((p, q), w)
        if spec and r.random() < .3: lines.insert(r.randrange(len(lines) + 1), "## comment"); 
        if spec and r.random() < .3: lines.insert(r.randrange(len(lines) + 1), "")
        if spec:
            p = os.path.join(scratch(), "spec")
            with open(p, "w", encoding="utf8") as f: f.write("\n".join(lines) + r.choice(["\n", ""]))
            opts += [r.choice(["-i", "--input"]), p]
        rest = [x for x in base if x not in known]
        viafile = rest and r.random() < .3
        if viafile:
            p = os.path.join(scratch(), "ol"); syms = ["@_EPSILON_SYMBOL_@", "+N"] + rest + [" "]
            with open(p, "wb") as f:
                if r.random() < .5: f.write(b"HFST\0" + struct.pack("<H", 20) + b"\0" + b"x" * 20)
                f.write(struct.pack("<HH", 3, len(syms)) + b"\0" * 52 + b"".join(s.encode() + b"\0" for s in syms) + b"rest of the transducer")
            opts += ["-a", p]
        elif rest:
            pos = ["".join(rest)] if r.random() < .7 or any(x in "-" for x in rest) else list(rest)
        if not spec and not rest: return
        for x in rest: alpha.setdefault(x, 0.0)
        for x in excl: alpha.pop(x, None)
        if not spec and not pos and not viafile: return
        opts += ["-d", str(d)] * (d != 1 or r.random() < .3) + (["-s"] if swap else []) + ([] if elim else ["--no-elim"]) + (["-e", eps] if eps != "@0@" else [])
        cmd = ["python3", S] + opts + pos
        x = run(cmd, b"", env=ENV); c.evals += 1
        files = {"spec": "\n".join(lines), "command": " ".join(cmd)}
        if x.rc: c.violation("editdist", "exit %d: %r" % (x.rc, x.err[-400:]), **files); return
        # weights: what the user said, else the reverse direction's, else 1 plus the symbols' own
        for p in alpha:
            subs.setdefault((OTHER, p), 1 + alpha[p]); subs.setdefault((eps, p), 1 + alpha[p]); subs.setdefault((p, eps), 1 + alpha[p])
        subs.setdefault((OTHER, eps), 1.0)
        s2, w2 = dict(subs), dict(swaps)
        for p in alpha:
            for q in alpha:
                if p == q: continue
                w = 1 + alpha[p] + alpha[q]
                s2.setdefault((p, q), subs.get((q, p), w))
                k = ((p, q), (q, p)); w2.setdefault(k, swaps.get((k[1], k[0]), w))
        if not swap: w2 = {}
        T, fin = {}, {}
        for ln in x.out.decode().splitlines():
            f = ln.split("\t")
            if len(f) == 2: fin[f[0]] = float(f[1])
            elif len(f) == 5: T.setdefault(f[0], []).append((f[1], f[2], f[3], float(f[4])))
            else: c.violation("editdist", "line %r is neither a transition nor a final state" % ln, stdout=x.out, **files); return
        c.ev("transitions", sum(map(len, T.values())))
        for s in T.values():
            for _, p, q, w in s:
                for z in (p, q):
                    if z not in alpha and z not in (eps, OTHER) and not any(z in k for k in subs) and not any(z in a or z in b for a, b in swaps):
                        c.violation("editdist", "a transition uses %r, which is not in the alphabet" % z, stdout=x.out, **files); return
        def accept(u, v):
            """minimum weight the transducer gives u:v"""
            memo = {}
            def go(s, a, b):
                k = (s, a, b)
                if k in memo: return memo[k]
                memo[k] = INF        # transitions reading and writing nothing never loop back
                best = fin.get(s, INF) if a == len(u) and b == len(v) else INF
                for t, p, q, w in T.get(s, []):
                    na = a if p == eps else a + 1 if a < len(u) and u[a] == p else None
                    nb = b if q == eps else b + 1 if b < len(v) and v[b] == q else None
                    if na is not None and nb is not None: best = min(best, w + go(t, na, nb))
                memo[k] = best; return best
            return go("0", 0, 0)
        def ref(u, v, adj):
            """cheapest script of 1..d edits; adj: may insertions and deletions be next to each other"""
            @lru_cache(None)
            def go(a, b, n, last):
                best = 0.0 if a == len(u) and b == len(v) and 1 <= n else INF
                if a < len(u) and b < len(v) and u[a] == v[b] and u[a] in alpha: best = min(best, go(a + 1, b + 1, n, ""))
                if n == d: return best
                if a < len(u) and b < len(v):
                    w = s2.get((u[a], v[b]))
                    if w is not None: best = min(best, w + go(a + 1, b + 1, n + 1, ""))
                if a < len(u) and (adj or last != "i"):
                    w = s2.get((u[a], eps))
                    if w is not None: best = min(best, w + go(a + 1, b, n + 1, "d"))
                if b < len(v) and (adj or last != "d"):
                    w = s2.get((eps, v[b]))
                    if w is not None: best = min(best, w + go(a, b + 1, n + 1, "i"))
                if a + 1 < len(u) and b + 1 < len(v):
                    w = w2.get(((u[a], u[a + 1]), (v[b], v[b + 1])))
                    if w is not None: best = min(best, w + go(a + 2, b + 2, n + 1, ""))
                return best
            return go(0, 0, 0, "")
        syms = sorted(alpha) + [OTHER]
        if not alpha: return
        def rw(k): return [r.choice(syms if r.random() < .1 else sorted(alpha)) for _ in range(k)]
        for _ in range(40):
            u = rw(r.randint(0, 5))
            if r.random() < .3: v = [z for z in rw(r.randint(0, 5)) if z != OTHER]
            else:
                v = list(u)
                for _ in range(r.randint(0, d + 1)):
                    z = r.random(); j = r.randint(0, len(v))
                    if z < .3: v.insert(j, r.choice(sorted(alpha)))
                    elif v and z < .6: del v[min(j, len(v) - 1)]
                    elif v and z < .8: v[min(j, len(v) - 1)] = r.choice(sorted(alpha))
                    elif len(v) > 1: j = min(j, len(v) - 2); v[j], v[j + 1] = v[j + 1], v[j]
            g = accept(tuple(u), tuple(v)); lo = ref(tuple(u), tuple(v), True)
            hi = lo if not elim or d < 3 else ref(tuple(u), tuple(v), False)
            c.ev("pairs"); c.ev("accepted", g < INF)
            if not (lo - 1e-9 <= g <= hi + 1e-9):
                c.violation("editdist", "distance %d%s: %s -> %s has weight %s; the cheapest edits cost %s" % (d, "" if elim else " --no-elim", u, v, g, lo if lo == hi else "%s..%s" % (lo, hi)), stdout=x.out, **files); return
        c.seen(x.out)
    chk.run_cases(case, chk.n(500, 8000))
    chk.min_evals = 300
if __name__ == "__main__": main(main_, "D04", "one case = one generated alphabet, specification and distance; the produced transducer is run on 40 word pairs and its weights compared with a weighted edit-distance reference",
     ["with elimination (distance 3 and more) a weight between the unrestricted optimum and the optimum without adjacent insertion and deletion is accepted", "symbols are single characters other than comma, tab and white space"])
