"""F03: LaTeX documents survive the LaTeX pipeline."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *
import latex, re

def split(stream):
    """The stream's text outside and inside superblanks."""
    a, b, inb, i = [], [], False, 0
    while i < len(stream):
        ch = stream[i]
        if ch == "\\" and i + 1 < len(stream): (b if inb else a).append(stream[i + 1]); i += 2; continue
        if ch == "[" and not inb: inb = True; a.append("\x01")
        elif ch == "]" and inb: inb = False; b.append("\x01")
        else: (b if inb else a).append(ch)
        i += 1
    return "".join(a), "".join(b), inb
def main_(chk):
    ex = chk.build(["apertium-" + x for x in ("prelatex", "deslatex", "relatex", "postlatex", "postlatex-raw")])
    fix = os.path.join(REPO, "apertium", "utils-fixlatex-header.sh")
    def case(r, i, c):
        doc = latex.document(r, r.choice([1, 1, 2, 4, 10]))
        src = "".join(p[0] for p in doc); data = enc(src)
        if not src: return
        f = os.path.join(scratch(), "d.tex")
        with open(f, "wb") as h: h.write(data)
        c.evals += 1; st = [data]; names = []
        def step(cmd):
            x = run(cmd, st[-1]); names.append(os.path.basename(cmd[0]))
            if c.san(x, doc=data, stream=st[-1]): return False
            if x.rc: c.violation("exit-" + names[-1][25:], "exit status %s\n%s" % (x.rc, x.err[:500]), doc=data, stream=st[-1]); return False
            st.append(x.out); return True
        if r.random() < .5: pre = [ex["apertium-prelatex"], f]
        else: pre = [ex["apertium-prelatex"]]
        for cmd in (pre, ["bash", fix], [ex["apertium-deslatex"]]):
            if not step(cmd): return
        mid = st[-1]
        try: vis, hidd, open_ = split(mid.decode("utf8"))
        except UnicodeDecodeError: c.violation("utf8", "the stream is not UTF-8: %r" % mid[:300], doc=data, stream=mid); return
        if open_: c.violation("unbalanced", "a blank is not closed", doc=data, stream=mid); return
        for cmd in ([ex["apertium-relatex"]], ["awk", '{gsub("</CONTENTS-noeos>", "</CONTENTS>"); print;}']):
            if not step(cmd): return
        last = st[-1]
        for k, (prog, n) in enumerate((("apertium-postlatex-raw", 1), ("apertium-postlatex", 2))):
            st.append(last)
            if not step([ex[prog]]): return
            want = "".join(p[n] for p in doc); want += "" if want.endswith("\n") else "\n"
            got = st[-1].decode("utf8", "replace")
            if got != want:
                c.violation("roundtrip-" + prog[9:], diff(want, got), doc=data, stream=mid, observed=st[-1]); return
        m = re.search(r"\w*(qz|zq)\w*", vis)
        if m: c.violation("exposed", "%r is markup, maths or a comment, but it is exposed for translation" % vis[max(0, m.start() - 40):m.end() + 40], doc=data, stream=mid); return
        m = re.search(r"\w*(vo|ov)\w*", hidd)
        if m: c.violation("hidden", "%r is text, but it is not exposed for translation" % hidd[max(0, m.start() - 40):m.end() + 40], doc=data, stream=mid); return
        c.ev("documents"); c.ev("bytes", len(data)); c.ev("words_exposed", len(re.findall(r"\w*(?:vo|ov)\w*", vis))); c.ev("hidden_items", len(re.findall("qz|zq", hidd)))
        for k in ("\\section", "\\textit", "$", "\\begin", "%", "\\verb", "\\cite", "["):
            if k in src: c.ev("docs_with_" + k)
        c.seen(src)
        if i < 60: c.sample({"document": src[:200]})
    chk.run_cases(case, chk.n(700, 20000)); chk.min_evals = 600
if __name__ == "__main__": main(main_, "F03", "one case = one random LaTeX document through prelatex, fixlatex, deslatex and back through relatex and both post-processors; the result must be the document, with accents in the notation the post-processor writes; marked words must be exposed or hidden in the stream; distinct by document",
     ["the document ends with a newline (awk in the driver adds one)"])
