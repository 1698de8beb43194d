"""K01: how a program is called and fed does not change what it does."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from chk import *
import importlib.util, select, subprocess, threading, time
import core, fmt, tag, latex

def gens(name):
    spec = importlib.util.spec_from_file_location("chk" + name, os.path.join(os.path.dirname(os.path.abspath(__file__)), name + ".py"))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m
T07, M01 = gens("T07"), gens("M01")

LONG = {
    "transfer": {"-z": "--null-flush", "-b": "--from-bilingual", "-n": "--no-bilingual", "-c": "--case-sensitive", "-w": "--dictionary-case", "-t": "--trace"},
    "interchunk": {"-z": "--null-flush", "-w": "--dictionary-case", "-t": "--trace"},
    "postchunk": {"-z": "--null-flush", "-w": "--dictionary-case", "-t": "--trace"},
    "pretransfer": {"-z": "--null-flush", "-e": "--compounds", "-n": "--no-surface-forms"},
    "posttransfer": {"-z": "--null-flush"},
    "extract": {"-z": "--null-flush", "-s": "--surface"},
    "restore": {"-z": "--null-flush", "-k": "--keep"},
    "tagger": {"-z": "--null-flush", "-g": "--tagger", "-p": "--show-superficial", "-m": "--mark", "-f": "--first", "-d": "--debug", "-b": "--sent-seg", "-x": "--perceptron", "-u1": "--unigram=1", "-u2": "--unigram=2", "-u3": "--unigram=3", "-w": "--sliding-window"},
}
# options which only add messages on the standard error output
QUIET = {"transfer": "-t", "interchunk": "-t", "postchunk": "-t", "tagger": "-d"}
NOFILES = {"attach", "detach", "cleanstream"}

def feed(r, cmd, data, limit=120):
    """Run with a pipe that delivers the input in pieces and a slow reader."""
    p = subprocess.Popen([str(x) for x in cmd], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=core.ENV, cwd=scratch())
    sizes = r.choice([[1], [1, 2, 3], [1, 5, 100], [7, 4096], [3, 1000, 8192]]); rr = random.Random(r.random())
    n = 0
    def write():
        i = 0; k = 0
        try:
            while i < len(data):
                j = i + rr.choice(sizes); p.stdin.write(data[i:j]); p.stdin.flush(); i = j; k += 1
                if k % 50 == 1: time.sleep(rr.choice([0, .0005, .002]))
        except BrokenPipeError: pass
        try: p.stdin.close()
        except BrokenPipeError: pass
    t = threading.Thread(target=write); t.start()
    out = b""; end = time.time() + limit
    while True:
        if not select.select([p.stdout], [], [], max(0, end - time.time()))[0]:
            p.kill(); p.wait(); t.join(); p.stdout.close(); raise Inconclusive("no output")
        x = os.read(p.stdout.fileno(), rr.choice([1, 16, 700, 65536]) if len(out) < 2000 else 65536)
        if not x: break
        out += x
    t.join(); p.stdout.close()
    return out, p.wait()

def main_(chk):
    fs = list(fmt.F)
    fprogs = sorted({p for f in fs for p in gens("F01").pair(f)} | {"apertium-prelatex", "apertium-postlatex", "apertium-postlatex-raw"})
    exes = chk.build(T07.NEEDED + ["apertium-cleanstream", "apertium-filter-ambiguity", "apertium-preprocess-transfer"] + fprogs)
    exes.update(chk.build(["apertium-multiple-translations"], more=[os.path.join(VERIF, "lib", "bishim.cc")]))
    setup = T07.make_setup(exes)
    dix = os.path.join(chk.base, "empty.dix"); fst = os.path.join(chk.base, "empty.bin")
    with open(dix, "w") as f: f.write('<dictionary><alphabet/><sdefs><sdef n="n"/></sdefs><section id="m" type="standard"><e><p><l>a<s n="n"/></l><r>b<s n="n"/></r></p></e></section></dictionary>')
    subprocess.run(["lt-comp", "lr", dix, fst], check=True, stdout=subprocess.DEVNULL)
    KINDS = list(dict.fromkeys(T07.KINDS)) + ["cleanstream", "filter-ambiguity", "multiple"] + ["fmt"] * 9 + ["latex"] * 2
    def make(r, i, c):
        """(kind, options, files, input, other files) or None"""
        kind = KINDS[i % len(KINDS)]
        if kind == "cleanstream":
            return kind, exes["apertium-cleanstream"], r.choice([[], ["-n"], ["-b"]]), [], "".join(r.choice(["^a<n>$", " ", "\\^", "[x]", "b", "\n", "^*c$", "[[t:b:1]]"]) for _ in range(r.choice([0, 3, 40]))), {}
        if kind == "filter-ambiguity":
            m = tag.model(r, exes["apertium-tagger"], "hmm"); m.text and None
            return kind, exes["apertium-filter-ambiguity"], [], [os.path.join(scratch(), "m.tsx")], m.stream(r), {"tsx": m.text}
        if kind == "multiple":
            g = M01.trx.Gen(r, "transfer", "lu"); comp = M01.Compiled(exes, g.prog, c)
            if not comp.ok: return None
            g.prog["_bil"] = False
            segs = M01.trx.gen_segments(r, M01.trx.word_plain, 1, prog=g.prog)
            return kind, exes["apertium-multiple-translations"], [], [comp.bin, fst], M01.trx.seg_text(segs[0]), {"rules": comp.text}
        if kind == "fmt":
            f = r.choice(fs); de, re_ = gens_pair(f)
            doc = enc("".join(p[1] for p in fmt.document(r, f, r.choice([1, 3, 8, 25]))))
            o = [x for x in ("-i", "-n") if r.random() < .3]
            if r.random() < .5: return "des" + f, exes[de], o, [], doc, {}
            x = run([exes[de]] + o, doc)
            if b"[@/" in x.out: F01.cleanup(x.out); return None
            return "re" + f, exes[re_], [], [], x.out, {}
        if kind == "latex":
            p = r.choice(["apertium-prelatex", "apertium-postlatex", "apertium-postlatex-raw"])
            d = "".join(q[0] for q in latex.document(r, r.choice([1, 2, 6])))
            return p[9:], exes[p], ["-i"] if p == "apertium-prelatex" and r.random() < .5 else [], [], d, {}
        st = setup(r, c, kind)
        if not st: return None
        cmd, gen, text = st
        cmd = [str(x) for x in cmd]
        if "-u" in cmd: j = cmd.index("-u"); cmd[j:j + 2] = ["-u" + cmd[j + 1]]
        opts = [x for x in cmd[1:] if str(x).startswith("-")]; pos = [x for x in cmd[1:] if not str(x).startswith("-")]
        data = "\0".join(gen(r) for _ in range(r.choice([1, 1, 2, 4])))
        if r.random() < .5: opts.remove("-z"); data = data.replace("\0", "\n")
        else: data += "\0"
        k = kind.split("-")[0]
        if k in ("transfer", "interchunk", "postchunk"):
            opts += [x for x in (["-c", "-w"] if k == "transfer" else ["-w"]) if r.random() < .2]
        return k, cmd[0], opts, pos, data, {"rules": text}
    F01 = gens("F01")
    gens_pair = F01.pair
    def case(r, i, c):
        m = make(r, i, c)
        if not m: return
        kind, exe, opts, pos, data, files = m
        if isinstance(data, str): data = enc(data)
        ref = run([exe] + opts + pos, data); c.evals += 1
        files = dict(files, input=data, command=" ".join(map(str, [os.path.basename(exe)] + opts + pos)))
        if c.san(ref, **files): return
        if b"[@/" in ref.out: F01.cleanup(ref.out); return
        k = "tagger" if kind == "tagger" else kind
        L = LONG.get(k, {})
        def spell():
            o = list(opts)
            if k in QUIET and r.random() < .4: o.append(QUIET[k])
            if r.random() < .5: r.shuffle(o)
            return [L[x] if x in L and r.random() < .5 else x for x in o]
        def differs(how, out, rc):
            c.evals += 1; c.ev(how); c.seen((kind, how, ref.out))
            if out == ref.out and rc == ref.rc: return False
            c.violation("%s-%s" % (how, kind), "%s: exit %s, %r\nas a filter with its input redirected: exit %s, %r" % (files["how"], rc, out[:600], ref.rc, ref.out[:600]), expected=ref.out, observed=out, **files); return True
        # fed in pieces
        cmd = [exe] + spell() + pos; files["how"] = "in pieces: " + " ".join(map(str, cmd[1:]))
        out, rc = feed(r, cmd, data)
        if differs("pieces", out, rc): return
        # spelling of options
        if L:
            cmd = [exe] + spell() + pos; files["how"] = "options: " + " ".join(map(str, cmd[1:]))
            x = run(cmd, data)
            if c.san(x, **files) or differs("options", x.out, x.rc): return
        if kind in NOFILES: return
        a, b = os.path.join(scratch(), "in put"), os.path.join(scratch(), "out-put")
        with open(a, "wb") as f: f.write(data)
        cmd = [exe] + spell() + pos + [a]; files["how"] = "input file: " + " ".join(map(str, cmd[1:]))
        x = run(cmd, b"^zzz<n>$ nothing reads this\0")
        if c.san(x, **files) or differs("input_file", x.out, x.rc): return
        if os.path.exists(b): os.unlink(b)
        if r.random() < .5:
            with open(b, "wb") as f: f.write(b"old contents " * r.choice([1, 5000]))
        cmd = [exe] + spell() + pos + [a, b]; files["how"] = "files: " + " ".join(map(str, cmd[1:]))
        x = run(cmd, b"^zzz<n>$ nothing reads this\0")
        if c.san(x, **files): return
        got = open(b, "rb").read() if os.path.exists(b) else b"(no file)"
        if differs("output_file", got, x.rc): return
        if x.out: c.violation("both-" + kind, "output in a file and also on the standard output: %r" % x.out[:200], **files)
        c.ev("program_" + kind)
    chk.run_cases(case, chk.n(600, 12000))
    chk.min_evals = 1000
if __name__ == "__main__": main(main_, "K01", "one case = one program with generated rules, model or document: its output as a filter with redirected input must be the same, byte for byte and with the same exit code, when the input comes in pieces through a pipe, when options are spelt long, reordered or tracing is on, with an input file argument, and with an output file that is new or has old contents",
     ["the program itself with redirected standard input is the reference"])
