"""G10: filtering and listing tagger corpora."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *
import tag

def main_(chk):
    exe = chk.build(["apertium-filter-ambiguity", "apertium-tagger-readwords", "apertium-tagger"])
    def setup(r):
        d = tag.TagDef(r, mult=False); lex = tag.Lexicon(r, d, n=r.choice([4, 12, 30]), plus=0)
        items = []
        for _ in range(r.choice([0, 1, 3, 10, 30, 60])):
            if r.random() < .12: items.append(("u", "".join(r.choice("abcé") for _ in range(3)) + r.choice(["", "\\$", "😀"])))
            else: items.append(("w", r.choice(list(lex.words))))
        sep = r.choice(["\n"] * 3 + [" ", "", "\n\n", " , ", "\\^ "])
        text = "".join(lex.unit(x) + (sep if r.random() < .8 else r.choice([" ", "\n", ""])) for x in items)
        if items and r.random() < .2: text = text.rstrip("\n ")
        return d, lex, items, text
    def tags(lex, x): return frozenset(lex.t[x[1]][0]) if x[0] == "w" else frozenset()
    # 1. apertium-filter-ambiguity
    def case_filter(r, i, c):
        d, lex, items, text = setup(r)
        tsx = tag.put("f.tsx", d.xml()); files = {"tsx": d.xml(), "input": text}
        seen = set(); want = []
        for x in items:
            t = tags(lex, x)
            if t and t not in seen:
                seen.add(t)
                want.append("^" + "/".join([x[1]] + [a for _, a in sorted(lex.t[x[1]][0].items())]) + "$\n")
        want = "".join(want)
        way = r.choice(["stdin", "file", "out"]); out = os.path.join(scratch(), "f.out")
        cmd = [exe["apertium-filter-ambiguity"], tsx]
        if way != "stdin": cmd.append(tag.put("f.in", text))
        if way == "out":
            cmd.append(out)
            if r.random() < .5: tag.put("f.out", "old " * 400)
            elif os.path.exists(out): os.unlink(out)
        x = run(cmd, text if way == "stdin" else ""); c.evals += 1
        if c.san(x, **files): return
        if x.rc: c.violation("exit", "exit %d: %r" % (x.rc, x.err[-300:]), **files); return
        got = open(out, "rb").read() if way == "out" else x.out
        if way == "out" and x.out: c.violation("stdout", "printed although there is an output file: %r" % x.out[:200], **files)
        if got != want.encode(): c.violation("filter", "got %r, the first words of each new set of tags are %r" % (got[:600], want[:600]), stdout=got, want=want, **files); return
        c.ev("way " + way); c.ev("words", len(items)); c.ev("kept", len(seen)); c.seen((d.xml(), text))
        # filtering again changes nothing
        if want and r.random() < .3:
            y = run([exe["apertium-filter-ambiguity"], tsx], want); c.evals += 1
            if y.out != want.encode(): c.violation("again", "filtering %r again gives %r" % (want[:400], y.out[:400]), **files)
            c.ev("filtered_again")
        if i < 5: c.sample({"input": text[:150], "output": want[:150]})
    # 2. training with the filtered dictionary gives the same ambiguity classes
    def case_train(r, i, c):
        d, lex, items, text = setup(r)
        text = lex.dictionary(r); tsx = tag.put("f.tsx", d.xml()); files = {"tsx": d.xml(), "dic": text}
        x = run([exe["apertium-filter-ambiguity"], tsx, tag.put("f.in", text)]); c.evals += 1
        if c.san(x, **files): return
        files["filtered"] = x.out
        cls = []
        crp, _ = lex.corpus(r, 3)
        for k, dic in enumerate([text, x.out.decode("utf8", "replace")]):
            p = os.path.join(scratch(), "m%d.prob" % k)
            y = run([exe["apertium-tagger"], "-t", 0, tag.put("m.dic", dic), tag.put("m.crp", crp), tsx, p]); c.evals += 1
            if c.san(y, **files): return
            if y.rc: c.violation("train", "training with the %s dictionary failed: %r" % (["full", "filtered"][k], y.err[-300:]), **files); return
            cls.append(set(tag.Prob(open(p, "rb").read()).classes))
        if cls[0] != cls[1]: c.violation("classes", "the filtered dictionary gives other ambiguity classes: lost %r, new %r" % ([sorted(d.names[t] for t in f) for f in cls[0] - cls[1]][:4], [sorted(d.names[t] for t in f) for f in cls[1] - cls[0]][:4]), **files); return
        c.ev("trainings_compared"); c.ev("classes", len(cls[0])); c.seen((d.xml(), text))
    # 3. apertium-tagger-readwords
    def case_read(r, i, c):
        d, lex, items, text = setup(r)
        tsx = tag.put("f.tsx", d.xml()); files = {"tsx": d.xml(), "input": text}
        array = ["TAG_" + n for n in d.names[:7]] + d.names[7:]
        show = lambda t: "{" + ",".join(array[k] for k in sorted(t)) + "}"
        lines = [(x[1], tags(lex, x)) for x in items] + [("", frozenset([d.names.index("kEOF") if "kEOF" in d.names else array.index("TAG_kEOF")]))]
        n = r.choice([0, 0, 1, 2, 5, 100]) if r.random() < .5 else 0
        use = lines[:n] if n else lines
        known = None
        if r.random() < .5:
            # a model trained on a part of the dictionary
            part = r.sample(sorted(lex.words), max(1, int(len(lex.words) * r.choice([.3, .6, 1]))))
            p = os.path.join(scratch(), "m.prob")
            y = run([exe["apertium-tagger"], "-t", 0, tag.put("m.dic", "".join(lex.entry(w) + "\n" for w in part)), tag.put("m.crp", "".join(lex.entry(w) + "\n" for w in part)), tsx, p]); c.evals += 1
            if c.san(y, **files): return
            if y.rc: raise Inconclusive("training failed")
            known = set(tag.Prob(open(p, "rb").read()).classes); opt = [r.choice(["-p", "--probfile"]), p]
        else: opt = [r.choice(["-x", "--tsxfile"]), tsx]
        if n: opt += [r.choice(["-l", "--clength"]), n]
        x = run([exe["apertium-tagger-readwords"]] + opt, text); c.evals += 1
        files["options"] = " ".join(str(o) for o in opt)
        if c.san(x, **files): return
        if x.rc: c.violation("exit", "exit %d: %r" % (x.rc, x.err[-300:]), **files); return
        want = "".join("%s %s\n" % (s, show(t)) for s, t in use)
        if x.out != want.encode(): c.violation("list", "got %r, want %r" % (x.out[:600], want[:600]), stdout=x.out, want=want, **files); return
        err = x.err.decode("utf8", "replace")
        if "%d were readed" % len(use) not in err: c.violation("count", "%d words, %r" % (len(use), err[-200:]), **files)
        bad = re.findall(r"^Word: (.*)$", err, re.M)
        if known is not None:
            # the program reports a set of tags the first time that it meets it or always
            new = [(s, t) for s, t in use if t not in known]; first = {}
            for s, t in new: first.setdefault(t, s)
            if not set(first.values()) <= set(bad) or not set(bad) <= {s for s, _ in new}:
                c.violation("unknown-class", "reported words %r; with sets of tags that the model does not have: %r" % (bad[:10], new[:10]), stderr=err, **files); return
            c.ev("unknown_classes", len(first)); c.ev("checked_against_models")
        elif bad: c.violation("unknown-class", "reported %r without a model" % bad[:5], stderr=err, **files)
        c.ev("listed", len(use)); c.seen((d.xml(), text, n))
        if i < 3: c.sample({"listing": want[:200]})
    chk.run_cases(case_filter, chk.n(700, 14000), "filter")
    chk.run_cases(case_train, chk.n(200, 4000), "train")
    chk.run_cases(case_read, chk.n(700, 14000), "read")
    chk.min_evals = 1000
if __name__ == "__main__": main(main_, "G10", "one case = one generated tag definition and text of 0-60 analysed words (unknown words, escapes, several separators): the filter's output is compared with the first word of each new set of coarse tags, with its one reading per coarse tag; the filtered dictionary must train a model with the same ambiguity classes; and the listing of words with their sets of tags, and the report of sets which a model does not know, with those an independent reading of the definition gives",
     ["words of several parts (tag definitions with multiwords) are not generated: the filter writes each part on its own", "every analysis has a coarse tag"])
