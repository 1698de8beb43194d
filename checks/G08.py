"""G08: the perceptron tagger: features, training and the beam search."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import itertools, re, tag, percep as P, stream as S

HEAD = re.compile(rb"^Sentence (\d+) of \d+\t\tToken (\d+) of \d+\t\tAnalysis (\d+) of \d+\t\tWordoid (\d+) of \d+\n", re.M)
def show(k): return b"%d; " % k[0][0] + b", ".join(k[1:]) + b": 1"
class Many(Exception): pass

def updates(spec, sent, w):
    """Possible results of one training step on a sentence under weights w:
    a list of None (no update) or {key: change}."""
    tagged, s = sent; U = P.U_(s); out = []
    def upd(front, correct):
        d = {}
        for k in front[2]: d[k] = d.get(k, 0) - 1
        for k in correct[2]: d[k] = d.get(k, 0) + 1
        return d
    def go(i, agenda, correct):
        if len(out) > 60: raise Many
        while i < len(U):
            an = U[i][1]
            if len(an) < 2 or tagged[i] is None:
                x = an[0] if len(an) == 1 else None
                agenda = [(sc, T + [x], v) for sc, T, v in agenda]; correct = (correct[0], correct[1] + [x], correct[2])
                i += 1; continue
            new = []; cn = None
            for it in agenda:
                for a in an:
                    T = it[1] + [a]; v = list(it[2]); sc = it[0]
                    for j in range(len(a)):
                        f = spec.features(T, U, i, j); v += f; sc += sum(w.get(k, 0) for k in f)
                    n = (sc, T, v); new.append(n)
                    if it[1] == correct[1] and a == tagged[i]: cn = n
            if cn is None: out.append(None); return     # the tagged analysis is not available
            new.sort(key=lambda x: -x[0]); size = min(spec.beam, len(new)); cut = new[size - 1][0]
            sure = [n for n in new if n[0] > cut]; tied = [n for n in new if n[0] == cut]
            best = new[0][0]
            res = None
            combos = list(itertools.islice(itertools.combinations(tied, size - len(sure)), 40))
            if len(combos) == 40: raise Many
            for q in combos:
                kept = sure + list(q)
                if not any(n is cn for n in kept):
                    for n in kept:
                        if n[0] == best: out.append(upd(n, cn))
                else:
                    go(i + 1, kept, cn)
            return
        best = max(n[0] for n in agenda)
        for n in agenda:
            if n[0] == best: out.append(None if n[1] == correct[1] else upd(n, correct))
    st = (0, [], [])
    go(0, [st], st)
    u = {}
    for x in out:
        # an update without differences still counts as one
        k = None if x is None else tuple(sorted((k, v) for k, v in x.items() if v))
        u[k] = x
    return list(u.values())

def training(spec, sents, iters, cap=120):
    """Possible weights after training, or None if there are too many."""
    states = {(): []}
    for _ in range(iters):
        new = {}
        for ups in states.values():
            for order in itertools.permutations(range(len(sents))):
                part = [list(ups)]
                for q in order:
                    nx = []
                    for u in part:
                        w = {}
                        for d in u:
                            for k, v in d.items(): w[k] = w.get(k, 0) + v
                        r = updates(spec, sents[q], w)
                        for x in r: nx.append(u if x is None else u + [x])
                    part = nx
                    if len(part) > cap: raise Many
                for u in part: new[tuple(tuple(sorted((k, v) for k, v in d.items() if v)) for d in u)] = u
                if len(new) > cap: raise Many
        states = new
    res = []
    for u in states.values():
        t = {}
        for i, d in enumerate(u):
            for k, v in d.items(): t[k] = t.get(k, 0) + v * (len(u) - i)
        res.append({k: v / len(u) for k, v in t.items() if v})
    return res

def main_(chk):
    exe = chk.build(["apertium-tagger", "apertium-perceptron-trace"])
    probe = chk.harness("percep_probe", "apertium-tagger", without=["perceptron_spec.cc"], extra=["-fno-sanitize-ignorelist"])
    # a local value which is not initialised (percep-uninit) holds the result
    # of the global predicate; specifications with one run where it is zero
    zero = chk.build(["apertium-tagger", "apertium-perceptron-trace"], extra=["-ftrivial-auto-var-init=zero"])
    which = [exe]
    def setup(r, simple=False, dynamic=False):
        d = tag.TagDef(r, mult=False, rules=False, discard=False) if r.random() < .6 else None
        s = P.spec(r, d, simple=simple, dynamic=dynamic); lex = P.Lex(r, d)
        if d: tag.put("p.tsx", d.xml())
        which[0] = zero if s.gp else exe
        return d, s, lex, tag.put("p.mtx", s.xml)
    def model(c, mtx, tagged, untagged, iters, files, opts=(), name="p.model"):
        m = os.path.join(scratch(), name)
        if os.path.exists(m): os.unlink(m)
        x = run([which[0]["apertium-tagger"], "-x"] + list(opts) + ["-s", iters, m, tag.put("p.tagged", tagged), tag.put("p.untagged", untagged), mtx]); c.evals += 1
        files.update(tagged=tagged, untagged=untagged)
        if c.san(x, **files): return None
        if x.rc: c.violation("train", "training failed (%d): %r" % (x.rc, x.err[-300:]), **files); return None
        return open(m, "rb").read()
    def base(c, mtx, files):
        """The model without weights; -> bytes before them."""
        b = model(c, mtx, "^./.<sent>$\n", "^./.<sent>$\n", 0, files)
        if b is None: return None
        if not b.endswith(P.EMPTY): c.violation("model", "a model without training ends in %r" % b[-20:], **files); return None
        return b[:-len(P.EMPTY)]
    def note(c, s, d, lex):
        for k in s.cov: c.ev("uses " + k)
        c.ev("specifications")
    # 1. the features of every word of every path
    def case_trace(r, i, c):
        for _ in range(12):
            try: trace_(r, i, c); return
            except P.Defect: c.ev("specifications_near_recorded_findings")
        raise Inconclusive("only specifications that run into recorded findings")
    def trace_(r, i, c):
        d, s, lex, mtx = setup(r, dynamic=r.random() < .6)
        files = {"p.mtx": s.xml, "p.tsx": d.xml() if d else ""}
        sents = [lex.sentence(r) for _ in range(r.choice([1, 2, 3]))]
        tagged = [[r.choice(an) if an else None for _, an in q] for q in sents]
        unt = "\n".join(" ".join(P.unit(x) for x in q) for q in sents) + "\n"
        tg = "\n".join(" ".join("^%s/%s$" % (x[0], t or "*" + x[0]) for x, t in zip(q, ts)) for q, ts in zip(sents, tagged)) + "\n"
        files.update(untagged=unt, tagged=tg)
        want = {}; every = 0
        for si, (q, ts) in enumerate(zip(sents, tagged)):
            U = P.U_(q); T = [P.parse(t) if t else None for t in ts]
            for ti, (_, an) in enumerate(U):
                for ai, a in enumerate(an):
                    T2 = T[:ti] + [a] + T[ti + 1:]
                    for wi in range(len(a)):
                        f = s.features(T2, U, ti, wi); every += sum(len(k) for k in f)
                        want[si, ti, ai, wi] = sorted({show(x) for x in f})
        if every > 200000: raise Inconclusive("too many features")
        x = run([which[0]["apertium-perceptron-trace"], "path", mtx, tag.put("u", unt), tag.put("t", tg)]); c.evals += 1
        if c.san(x, **files): return
        if x.rc: c.violation("trace", "exit %d: %r" % (x.rc, x.err[-300:]), **files); return
        got = {}
        ms = list(HEAD.finditer(x.out))
        for m, n in zip(ms, ms[1:] + [None]):
            body = x.out[m.end():n.start() if n else None].split(b"\n\n", 1)[0].split(b"\n")[1:]
            got[tuple(int(g) for g in m.groups())] = sorted(b for b in body if b)
        for k, w in want.items():
            if k not in got: c.violation("missing", "no features printed for sentence %d token %d analysis %d wordoid %d" % k, **files); return
            if got[k] != w:
                c.violation("features", "sentence %d token %d analysis %d wordoid %d: got %r, the specification says %r" % (k + ([g for g in got[k] if g not in w][:5], [g for g in w if g not in got[k]][:5])), **files); return
            c.ev("features", len(w)); c.ev("wordoids")
            for f in w: c.seen(f)
        if len(got) != len(want): c.violation("extra", "%d words printed, %d expected" % (len(got), len(want)), **files); return
        note(c, s, d, lex)
        if i < 5: c.sample({"spec": s.xml[:300], "tagged": tg[:100]})
    # 2. tagging under known weights
    def case_tag(r, i, c):
        d, s, lex, mtx = setup(r)
        files = {"p.mtx": s.xml, "p.tsx": d.xml() if d else ""}
        b = base(c, mtx, files)
        if b is None: return
        nul = r.random() < .25; seg = r.random() < .2
        sents = [lex.sentence(r, r.choice([4, 7, 10]) if s.history else None) for _ in range(r.choice([1, 2, 4]))]
        # weights over the features of some paths
        w = {}
        for q in sents:
            U = P.U_(q)
            for _ in range(40 if s.history else 6):
                T = []
                for ti, (_, an) in enumerate(U):
                    T.append(r.choice(an) if an else None)
                    for wi in range(len(T[-1] or [])):
                        for k in s.features(T, U, ti, wi):
                            if r.random() < .8 and k not in w: w[k] = r.choice([1, 1, 1, 100]) * r.uniform(-1, 1)
        mp = os.path.join(scratch(), "w.model"); open(mp, "wb").write(b + P.wmap(w))
        for _ in range(3):
            qs = [r.choice(sents) if r.random() < .6 else lex.sentence(r) for _ in range(r.choice([1, 2, 4]))]
            if seg:
                # a full stop alone does not end a sentence
                j = []
                for q in qs:
                    if j and r.random() < .5 and len(j[-1]) < 10: j[-1] = j[-1] + q
                    else: j.append(list(q))
                qs = j
            if r.random() < .3: qs[-1] = qs[-1][:-1]
            bl = lambda: r.choice([" "] * 4 + ["", "[x]", "\n", " [[t:b:1]]", ", "])
            inp = ""; 
            for q in qs: inp += "".join(bl() + P.unit(x) for x in q) + ("\0" if nul else "\n\n" if seg else bl())
            opts = [o for o in ("-p", "-m", "-f") if r.random() < .2]
            ags = []
            for q in qs:
                try:
                    ags.append(P.beam(s, w, q))
                    if s.beam > 1 and len(ags[-1]) == s.beam:
                        s.beam -= 1
                        try: c.ev("beam_decided", P.beam(s, w, q)[0][1] != ags[-1][0][1]); c.ev("beam_decided_wide", s.beam > 2 and P.beam(s, w, q)[0][1] != ags[-1][0][1])
                        except P.Tie: pass
                        finally: s.beam += 1
                except P.Tie: ags.append(None)
            x = run([which[0]["apertium-tagger"], "-x", "-g"] + (["-z"] if nul else []) + (["-b"] if seg else []) + opts + [mp], inp); c.evals += 1
            f2 = dict(files, model=b + P.wmap(w), input=inp, stdout=x.out, options=" ".join(opts + ["-z"] * nul + ["-b"] * seg))
            if c.san(x, **f2): return
            if x.rc: c.violation("tag", "exit %d: %r" % (x.rc, x.err[-300:]), **f2); return
            try: got = S.tokenize(x.out.decode("utf8", "replace")); ref = S.tokenize(inp)
            except S.Malformed as e: c.violation("output", "%s: %r" % (e, x.out[:300]), **f2); return
            if nul and [g for g in got if g[0] == "nul"][len(qs):] and got[-1][0] == "nul": got = got[:-1]
            rest = [t if t[0] != "lu" else ("lu", "") for t in got]
            if rest != [t if t[0] != "lu" else ("lu", "") for t in ref]:
                c.violation("kept", "what is between the words changed: %r -> %r" % (inp[:300], x.out[:300]), **f2); return
            us = [v for k, v in got if k == "lu"]; n = 0
            for q, ag in zip(qs, ags):
                mine = us[n:n + len(q)]; n += len(q)
                if ag is None: c.ev("ties"); continue
                best = ag[0][1]
                for (sf, an), T, u in zip(q, best, mine):
                    t = next((a for a in an if P.parse(a) == T), None)
                    e = "*" + sf if t is None else t + ("/" + "/".join(a for a in an if a != t) if "-f" in opts and len(an) > 1 else "")
                    if "-p" in opts: e = sf + "/" + e
                    if "-m" in opts and len(an) > 1: e = "=" + e
                    if u != e: c.violation("choice", "beam %d: %s came out as ^%s$, the weights say ^%s$ in %s" % (s.beam, P.unit((sf, an)), u, e, " ".join(mine)), **f2); return
                    if len(an) > 1: c.ev("ambiguous_words"); c.seen((u, tuple(an)))
                c.ev("sentences")
                if len(ag) == s.beam: c.ev("sentences_with_full_beam")
        note(c, s, d, lex)
        if i < 5: c.sample({"weights": len(w), "beam": s.beam, "input": inp[:120]})
    # 3. training
    def case_train(r, i, c):
        d, s, lex, mtx = setup(r, simple=r.random() < .5)
        files = {"p.mtx": s.xml, "p.tsx": d.xml() if d else ""}
        b = base(c, mtx, files)
        if b is None: return
        n = r.choice([1, 1, 2]); iters = r.choice([1, 1, 2, 3]) if n == 1 else r.choice([1, 1, 2])
        sents = []
        for _ in range(n):
            q = lex.sentence(r, r.choice([1, 1, 2, 3, 4])); amb = 0
            for k, (sf, an) in enumerate(q):
                # few ambiguous words keep the number of ways to break ties small
                if len(an) > 1:
                    amb += 1
                    if amb > 3: q[k] = (sf, an[:1])
            sents.append(([P.parse(r.choice(an)) if an else None for _, an in q], q))
        drop = r.random()
        opts = ["--skip-on-error"] if drop < .25 else []
        text = lambda T, x: "*" + x[0] if T is None else next(a for a in x[1] if P.parse(a) == T)
        tg = ""; unt = ""; use = []
        for T, q in sents:
            line = [(x[0], text(t, x)) for x, t in zip(q, T)]
            if opts and r.random() < .4:
                k = r.randrange(len(line)); line[k] = ("zzz", line[k][1])   # the sentence does not align
                if k == len(line) - 1: line[k] = (line[k][0], ".<sent>")
                c.ev("skipped_sentences")
            elif opts and r.random() < .4 and any(len(x[1]) > 1 for x in q):
                k = r.choice([k for k, x in enumerate(q) if len(x[1]) > 1]); line[k] = (line[k][0], "nowhere<zzz>"); T = list(T); T[k] = P.parse("nowhere<zzz>"); use.append((T, q))
                c.ev("skipped_sentences")
            else: use.append((T, q))
            tg += " ".join("^%s/%s$" % x for x in line) + "\n"; unt += " ".join(P.unit(x) for x in q) + "\n"
        try: want = training(s, use, iters)
        except Many: c.ev("too_many_ties"); want = None
        full = model(c, mtx, tg, unt, iters, files, opts)
        if full is None: return
        files["iterations"] = str(iters); files["options"] = " ".join(opts)
        if not full.startswith(b): c.violation("model", "the specification part of the model depends on the training text", **files); return
        try: w = P.rmap(full[len(b):])
        except (ValueError, IndexError) as e: c.violation("model", "cannot read the weights: %s" % e, **files); return
        c.ev("models"); c.ev("weights", len(w))
        if any(v != v or v == 0 or abs(v) == float("inf") for v in w.values()): c.violation("weights", "weights %r" % {k: v for k, v in w.items() if not v == v or v == 0}, **files); return
        if want is not None:
            c.ev("trainings_followed"); c.ev("ways_to_break_ties", len(want))
            same = lambda a, b: a.keys() == b.keys() and all(abs(a[k] - b[k]) <= 1e-9 * (1 + abs(a[k])) for k in a)
            if not any(same(w, x) for x in want):
                near = min(want, key=lambda x: sum(w.get(k) != x.get(k) for k in set(w) | set(x)))
                c.violation("weights", "%d iterations: %d possible results; closest differs in (key, got, wanted) %r" % (iters, len(want), [(k, w.get(k), near.get(k)) for k in set(w) | set(near) if w.get(k) != near.get(k)][:6]), **files); return
            c.seen(tuple(sorted(w.items())))
        note(c, s, d, lex)
    # 4. a corpus that the specification separates
    def case_sep(r, i, c):
        big = r.random() < .2; which[0] = exe
        lex = P.Lex(r, None, n=90 if big else r.choice([6, 12]), plus=0)
        ctx = r.random() < .5 and not big
        pre = '<out><ex-surf><add><tokaddr/><int val="-1"/></add></ex-surf></out>' if ctx else ""
        xml = '<metatag>%s<feats><feat>%s<out><ex-surf><tokaddr/></ex-surf></out><out><ex-lemma><ex-wordoid><wrdaddr/></ex-wordoid></ex-lemma></out><out><join val="/"><ex-tags><ex-wordoid><wrdaddr/></ex-wordoid></ex-tags></join></out></feat></feats></metatag>' % (
            "" if r.random() < .5 else '<beam-width val="%d"/>' % r.choice([1, 2, 4]), pre)
        mtx = tag.put("p.mtx", xml); files = {"p.mtx": xml}
        gold = {}; sents = []
        for _ in range(40 if big else r.choice([1, 3, 8])):
            q = lex.sentence(r, 6 if big else r.choice([1, 3, 6])); T = []; prev = "!SURF_UNDERFLOW!"
            for sf, an in q:
                k = (prev, sf) if ctx else sf
                if an and k not in gold: gold[k] = r.choice(an)
                T.append(gold[k] if an else None); prev = sf
            sents.append((T, q))
        line = lambda T, q: " ".join("^%s/%s$" % (x[0], t or "*" + x[0]) for x, t in zip(q, T)) + "\n"
        unt = "".join(" ".join(P.unit(x) for x in q) + "\n" for _, q in sents); tg = "".join(line(*x) for x in sents)
        b = base(c, mtx, files)
        if b is None: return
        full = model(c, mtx, tg, unt, len(gold) + 1, files)
        if full is None: return
        w = P.rmap(full[len(b):])
        sc = {}
        for k, v in w.items(): sc.setdefault(k[1:-2], {})[k[-2:]] = v
        x = run([exe["apertium-tagger"], "-x", "-g", os.path.join(scratch(), "p.model")], unt); c.evals += 1
        if c.san(x, **files): return
        us = [v for k, v in S.tokenize(x.out.decode())if k == "lu"]; n = 0
        right = set(); wrong = set()
        for T, q in sents:
            prev = "!SURF_UNDERFLOW!"
            for (sf, an), t in zip(q, T):
                u = us[n]; n += 1; known = sc.get(tuple(z.encode() for z in ((prev, sf) if ctx else (sf,)))); prev = sf
                if len(an) < 2: continue
                # a word which was always right by chance has no weights
                c.ev("learned_words" if known else "words_never_wrong")
                (wrong if known else right).add(sf)
                if known and u != t: c.violation("learn", "%s is always ^%s/%s$ in the training text and came out as ^%s$" % (P.unit((sf, an)), sf, t, u), stdout=x.out, **files); return
        # 40 words whose tags were drawn at random are not all right by chance
        if len(right) >= 40 and not wrong: c.violation("learn", "nothing was learned about any of the %d ambiguous words of the text" % len(right), tagged=tg, untagged=unt, **files); return
        c.ev("separable_corpora"); c.ev("large_corpora", len(right) + len(wrong) >= 40)
    # recorded findings of the virtual machine
    def probes(r, i, c):
        # what each finding is about; the unit, the feature, the features wanted
        unit = "^cats/cat<n><sg>$"
        one = lambda v: ["0; %s: 1" % v]
        tags = "<ex-tags><ex-wordoid><wrdaddr/></ex-wordoid></ex-tags>"
        empty = '<slice end="-2">%s</slice>' % tags
        for key, defs, feat, want in [
            ("percep-slice", "", '<out-many><slice start="5">%s</slice></out-many>' % tags, []),
            ("percep-subscript", "", '<out><subscript idx="-2">%s</subscript></out>' % tags, one("n")),
            ("percep-filterin", "", '<inst opcode="pushaddr"/><inst opcode="getwrd"/><inst opcode="extags"/><inst opcode="filterin" val="zz"/><inst opcode="fcatstrarr"/>', []),
            ("percep-compare", "", '<out><lt><int val="1"/><int val="2"/></lt></out>', one("t")),
            ("percep-shortcut", '<defns><def-macro as="m"><or><eq><int val="1"/><int val="2"/></eq><eq><int val="1"/><int val="1"/></eq></or></def-macro></defns>', '<pred><macro name="m"/></pred><out><tokaddr/></out>', one("0")),
            ("percep-join", "", '<out><join val="-"><for-each as="v">%s<slice end="-2"><var name="v"/></slice></for-each></join></out>' % tags, one("-")),
            ("percep-loop", "", '<out-many><for-each as="v">%s<var name="v"/></for-each></out-many>' % empty, []),
            ("percep-loop", "", '<for-each as="v">%s<out><var name="v"/></out></for-each>' % tags, one("n, sg")),
            ("percep-predmacro", '<defns><def-macro as="m"><eq><tokaddr/><int val="0"/></eq></def-macro></defns><global-pred><macro name="m"/></global-pred>', '<out><tokaddr/></out>', one("0")),
        ]:
            xml = "<metatag>%s<feats><feat>%s</feat></feats></metatag>" % (defs, feat)
            x = run([exe["apertium-perceptron-trace"], "path", tag.put("f.mtx", xml), tag.put("u", unit + "\n"), tag.put("t", "^cats/cat<n><sg>$\n")], cpu=2); c.evals += 1
            m = HEAD.search(x.out)
            got = [b for b in x.out[m.end():].split(b"\n\n", 1)[0].decode("utf8", "replace").split("\n")[1:] if b] if m else None
            if x.rc or got != want: c.violation(key, "%s on %s: exit %s, %r, want %r" % (feat, unit, x.rc, got, want), mtx=xml)
        for key, arg in (("percep-uninit", "uninit"), ("percep-nopred", "nopred")):
            x = run([probe, arg]); c.evals += 1
            if x.rc or x.out != b"ok\n": c.violation(key, "%r" % x.err[-300:])
    chk.one(probes, "recorded")
    chk.run_cases(case_trace, chk.n(700, 14000), "trace")
    chk.run_cases(case_tag, chk.n(350, 7000), "tag")
    chk.run_cases(case_train, chk.n(350, 7000), "train")
    chk.run_cases(case_sep, chk.n(80, 1500), "separable")
    chk.min_evals = 1000
if __name__ == "__main__": main(main_, "G08", "one case = one generated feature specification (all expression kinds, macros with arguments, loops, global predicates, raw instructions, coarse tags) and either (a) every word of every path of 1-3 tagged sentences, whose printed features are compared with a reference interpreter, (b) streams tagged under random weights, compared with a reference beam search, (c) a training run whose weights are looked up among those a reference averaged perceptron can produce for any order of sentences and any way to break ties, or (d) training on a corpus that a feature separates, which the model has to reproduce",
     ["what runs into the recorded findings percep-* is not generated: comparisons of different numbers, conjunctions in macros and predicates, loops that output, subscripts from the end, slices and loops of possibly empty lists (the latter where features are listed: only when a word meets them)", "scores closer than 1e-9 may be ordered either way", "integer and boolean macros directly below <out>, slices and loops of word lists inside <for-each>, and <pathlen> are rejected or unimplemented and not generated"])
