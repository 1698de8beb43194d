"""G06: tag definitions classify analyses as written."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import tag, stream as S

def main_(chk):
    exe = chk.build(["apertium-tagger"])["apertium-tagger"]
    def case(r, i, c):
        d = tag.TagDef(r); lex = tag.Lexicon(r, d, n=r.choice([20, 40]), plus=r.choice([0, .15]))
        x, m = tag.train_hmm(r, exe, d, lex, iters=0)
        c.evals += 1
        files = {"tsx": m.text, "dic": "".join(lex.entry(w) + "\n" for w in lex.words)}
        if c.san(x, **files): return
        if x.rc: c.violation("train", "training failed: %r" % x.err[-500:], **files); return
        p = tag.Prob(open(m.path, "rb").read())
        if p.array[:len(d.names)] != ["TAG_" + n for n in d.names[:7]] + d.names[7:] or p.index != {"TAG_" + n: k for n, k in d.index.items()}:
            c.violation("tags", "tags %r %r" % (p.array, p.index), **files); return
        if p.open != d.open: c.violation("open", "open class %r, definition says %r" % (sorted(p.open), sorted(d.open)), **files); return
        if p.forbid != [(d.index[a], d.index[b]) for a, b in d.forbid]: c.violation("forbid", "%r vs %r" % (p.forbid, d.forbid), **files)
        if sorted((a, sorted(b)) for a, b in p.enforce) != sorted((d.index[a], sorted(d.index[y] for y in b)) for a, b in d.enforce): c.violation("enforce", "%r vs %r" % (p.enforce, d.enforce), **files)
        name = lambda f: "{" + ",".join(d.names[t] for t in sorted(f)) + "}"
        want = set(lex.classes()) | {frozenset(d.open)} | {frozenset([k]) for k in range(len(d.names))}
        got = set(p.classes)
        for f in want - got:
            ws = [(w, lex.words[w]) for w, t in lex.t.items() if any(frozenset(q) == f for q in t)]
            c.violation("class-missing", "no ambiguity class %s, the class of %r\nextra classes: %s" % (name(f), ws[:3], [name(g) for g in got - want][:4]), **files); return
        if got - want: c.violation("class-extra", "ambiguity class %s of no word" % [name(g) for g in got - want][:4], **files); return
        if len(p.classes) != len(got): c.violation("class-twice", "a class occurs twice", **files); return
        c.ev("classes", len(got)); c.ev("words", len(lex.words)); c.ev("analyses", sum(map(len, lex.words.values())))
        c.ev("mult_words", sum(any(len(q) for q in t) and "+" in lex.words[w][0] for w, t in lex.t.items()))
        c.ev("discards", sum(len(a) for a in lex.words.values()) - sum(len(q) for t in lex.t.values() for q in t if len(t) == 1))
        # the tagger: one form per coarse tag with -f, marks exactly on ambiguous words
        ws = [w for w in lex.words if len(lex.t[w]) == 1]
        r.shuffle(ws)
        x = run([exe, "-g", "-f", "-m", m.path], " ".join(lex.entry(w) for w in ws) + "\n"); c.evals += 1
        files["input"] = " ".join(lex.entry(w) for w in ws)
        if c.san(x, **files): return
        try: us = [v for k, v in S.tokenize(x.out.decode("utf8", "replace")) if k == "lu"]
        except S.Malformed as e: c.violation("output", "%s: %r" % (e, x.out[:500]), **files); return
        if len(us) != len(ws): c.violation("output", "%d units for %d words: %r" % (len(us), len(ws), x.out[:500]), **files); return
        for w, u in zip(ws, us):
            forms = lex.t[w][0]; marked = u.startswith("=")
            f = S.split_unescaped(u[1:] if marked else u, "/")
            if f[0] != w or sorted(f[1:]) != sorted(forms.values()):
                c.violation("forms", "word %r with analyses %r was output as %r; one form per coarse tag is %r" % (w, lex.words[w], u, {d.names[t]: a for t, a in forms.items()}), **files); return
            if marked != (len(forms) > 1): c.violation("mark", "word %r with tags %r was output as %r" % (w, [d.names[t] for t in forms], u), **files); return
            if len(forms) < len(lex.words[w]): c.ev("preferences_applied")
        c.ev("tagged_words", len(ws)); c.seen((m.text, tuple(lex.words)))
        if i < 6: c.sample({"tags": d.names[7:], "prefer": d.prefer, "discard": d.discard, "classes": [name(f) for f in list(got)[:6]]})
    chk.run_cases(case, chk.n(600, 12000))
    chk.min_evals = 300
if __name__ == "__main__": main(main_, "G06", "one case = one generated tag definition (overlapping labels, lemma items, wildcards, multiwords, preferences, discards) and a dictionary of 26-46 words: the model's tag list, open class, rules and ambiguity classes and the tagger's listing of each word must be those an independent reading of the definition gives; distinct by definition and dictionary",
     ["patterns use lower-case lemmas; every analysis has a coarse tag; the analyses of a word cut into the same number of parts"])
