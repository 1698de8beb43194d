"""Out-of-tree sanitizer build of the programs in /repo.

Every object is compiled from /repo's *current* working tree with clang's
AddressSanitizer + UndefinedBehaviorSanitizer (reports are fatal) into
/verif/build, keyed by a hash of its source, all headers and the flags, so a
changed tree is always rebuilt.  Generated sources (deformatters, LaTeX
scanners) are regenerated here from the format files of the current tree.
"""
import hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
AP = os.path.join(REPO, "apertium")
BUILD = os.path.join(VERIF, "build")
CXX = os.environ.get("VERIF_CXX", "clang++")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
       "-fsanitize-ignorelist=" + os.path.join(VERIF, "lib", "san_ignore.txt")]
BASEFLAGS = ["-O0", "-gline-tables-only", "-w", "-std=c++23", "-DVERIF_MONITOR"]
LIBS = ["-lstdc++fs", "-llttoolbox", "-lxml2", "-licuio", "-licui18n", "-licuuc", "-licudata"]
ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", HOME="/root")

FORMATS = {"txt": "txt", "html": "html", "html_alt": "html-alt", "html_noent": "html-noent",
           "odt": "odt", "rtf": "rtf", "wxml": "wxml", "latex": "latex", "xlsx": "xlsx",
           "pptx": "pptx", "mediawiki": "mediawiki", "xpresstag": "xpresstag"}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd,
                                     r.stdout.decode("utf8", "replace")[-4000:]))
    return r.stdout

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        m.update(str(len(p)).encode() + b":" + p)
    return m.hexdigest()[:24]

_mk = None
def makefile():
    """{var: [words]} from Makefile.am"""
    global _mk
    if _mk is None:
        txt = _read(os.path.join(AP, "Makefile.am")).decode("utf8", "replace").replace("\\\n", " ")
        txt = re.sub(r"(?ms)^if WINDOWS\n(.*?)^(else\n(.*?)^)?endif$", lambda m: m.group(3) or "", txt)
        _mk = {}
        for m in re.finditer(r"(?m)^([A-Za-z_][\w]*)[ \t]*\+?=[ \t]*(.*)$", txt):
            _mk.setdefault(m.group(1), []).extend(m.group(2).split())
    return _mk

def lib_sources():
    return [s for s in makefile().get("cc_sources", []) if s.endswith(".cc")]

def prog_sources(prog):
    var = prog.replace("-", "_") + "_SOURCES"
    srcs = makefile().get(var)
    return [s for s in srcs if s.endswith(".cc")] if srcs else [prog.replace("-", "_") + ".cc"]

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        m = hashlib.sha256()
        for f in sorted(os.listdir(AP)):
            if f.endswith((".h", ".hpp", ".tcc", ".inc")) and f != "apertium_config.h":
                m.update(f.encode()); m.update(_read(os.path.join(AP, f)))
        _hdr = m.hexdigest()
    return _hdr

def config_dir():
    """-I directory giving <apertium/apertium_config.h> when the tree has none."""
    if os.path.exists(os.path.join(AP, "apertium_config.h")):
        return []
    d = os.path.join(BUILD, "conf", "apertium")
    os.makedirs(d, exist_ok=True)
    fb = os.path.join(VERIF, "lib", "fallback_config.h")
    with open(os.path.join(d, "apertium_config.h"), "wb") as f:
        f.write(_read(fb))
    return ["-I" + os.path.dirname(d), "-I" + d]

def cxxflags():
    return (["-DHAVE_CONFIG_H"] + BASEFLAGS + config_dir() +
            ["-I" + REPO, "-I" + AP, "-I/usr/include/utf8cpp", "-I/usr/include/libxml2"])

def generated_source(src):
    """Path of a generated .cc for src name, or None if it is a plain source."""
    xsl = None
    m = re.match(r"apertium_(des|re)(.+)\.cc$", src)
    if m and m.group(2) in FORMATS:
        xsl = "deformat.xsl" if m.group(1) == "des" else "reformat.xsl"
        x = _read(os.path.join(AP, xsl)); fmtfile = FORMATS[m.group(2)] + "-format.xml"
        y = _read(os.path.join(AP, fmtfile))
        key = _h("fmt", src, x, y)
        out = os.path.join(BUILD, "gen", key + "-" + src)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            l = out + ".%d.l" % os.getpid()
            with open(l, "wb") as f:
                f.write(sh(["xsltproc", os.path.join(AP, xsl), os.path.join(AP, fmtfile)]))
            sh(["flex", "-Cfer", "-o" + out + ".t%d" % os.getpid(), l])
            os.rename(out + ".t%d" % os.getpid(), out); os.unlink(l)
        return out
    lex = {"apertium_prelatex.cc": "apertium-prelatex.l", "apertium_postlatex.cc": "apertium-postlatex.l",
           "apertium_postlatex_raw.cc": "apertium-postlatex-raw.l"}.get(src)
    if lex:
        y = _read(os.path.join(AP, lex))
        out = os.path.join(BUILD, "gen", _h("lex", src, y) + "-" + src)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            sh(["flex", "-Cfer", "-o" + out + ".t%d" % os.getpid(), os.path.join(AP, lex)])
            os.rename(out + ".t%d" % os.getpid(), out)
        return out
    return None

def compile_obj(src, san=True, extra=()):
    """Compile one source (name relative to apertium/ or absolute path)."""
    gen = None if os.path.isabs(src) else generated_source(src)
    path = gen or (src if os.path.isabs(src) else os.path.join(AP, src))
    flags = cxxflags() + (SAN if san else []) + list(extra)
    key = _h("obj", CXX, " ".join(flags), os.path.basename(src), _read(path), headers_hash(), _read(os.path.join(VERIF, "lib", "san_ignore.txt")) if san else "")
    out = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.%s.tmp.o" % (os.getpid(), os.urandom(3).hex())
        sh([CXX] + flags + ["-c", path, "-o", tmp])
        os.rename(tmp, out)
    return out

def compile_many(srcs, san=True, extra=()):
    srcs = list(dict.fromkeys(srcs))
    with ThreadPoolExecutor(max_workers=8) as ex:
        return dict(zip(srcs, ex.map(lambda s: compile_obj(s, san, extra), srcs)))

# Which library sources each program usually needs; only an optimisation: when
# the link fails, the whole library is compiled and linked instead.
_T = ["transfer_base.cc", "transfer_data.cc", "transfer_instr.cc", "transfer_regex.cc", "transfer_token.cc",
      "transfer_word.cc", "transfer.cc", "interchunk.cc", "interchunk_word.cc", "postchunk.cc", "apertium_re.cc",
      "xml_reader.cc", "trx_reader.cc", "shell_utils.cc", "string_utils.cc", "transfer_mult.cc"]
_G = ["a.cc", "analysis.cc", "apertium_re.cc", "collection.cc", "constant_manager.cc", "endian_double_util.cc",
      "exception_type.cc", "feature_vec.cc", "feature_vec_averager.cc", "file_tagger.cc", "hmm.cc", "i.cc",
      "lemma.cc", "lswpost.cc", "morpheme.cc", "morpho_stream.cc", "mtx_reader.cc", "file_morpho_stream.cc",
      "linebreak.cc", "align.cc",
      "perceptron_spec.cc", "perceptron_tagger.cc", "sentence_stream.cc", "stream.cc", "stream_tagger.cc",
      "shell_utils.cc", "tagger.cc", "tagger_data.cc", "tagger_data_hmm.cc", "tagger_data_lsw.cc",
      "tagger_data_percep_coarse_tags.cc", "tagger_flags.cc", "tagger_utils.cc", "tagger_word.cc",
      "tsx_reader.cc", "unigram_tagger.cc", "xml_reader.cc"]
HINTS = {
    "apertium-transfer": _T, "apertium-interchunk": _T, "apertium-postchunk": _T,
    "apertium-preprocess-transfer": _T, "apertium-multiple-translations": _T,
    "apertium-pretransfer": ["pretransfer.cc"],
    "apertium-tagger": _G, "apertium-filter-ambiguity": _G, "apertium-perceptron-trace": _G,
    "apertium-tagger-apply-new-rules": _G, "apertium-tagger-readwords": _G,
    "apertium-restore-caps": ["caps_restorer.cc"], "apertium-compile-caps": ["caps_compiler.cc", "xml_reader.cc"],
    "apertium-extract-caps": [],
    "apertium-tmxbuild": [s for s in ("tmx_aligner_tool.cc tmx_alignment.cc tmx_arguments_parser.cc "
        "tmx_book_to_matrix.cc tmx_builder.cc tmx_dictionary.cc tmx_strings_and_streams.cc "
        "tmx_trail_postprocessors.cc tmx_translate.cc").split()],
    "apertium-postlatex": ["latex_accentsmap.cc"], "apertium-prelatex": ["latex_accentsmap.cc"],
    "apertium-postlatex-raw": ["latex_accentsmap.cc"],
}

def _link(prog, objs, out, san):
    tmp = out + ".%d.tmp" % os.getpid()
    sh([CXX] + (SAN if san else []) + objs + ["-o", tmp] + LIBS)
    os.rename(tmp, out)

def build(progs, san=True, extra=(), more=()):
    """Build the programs (linked with the extra sources `more`); {prog: path}."""
    os.makedirs(BUILD, exist_ok=True)
    avail = set(lib_sources())
    need = []
    for p in progs:
        need += prog_sources(p) + [s for s in HINTS.get(p, []) if s in avail]
    objs = compile_many(need + list(more), san, extra)
    mo = [objs[s] for s in more]
    res = {}
    full = None
    def link_one(p):
        nonlocal full
        ol = [objs[s] for s in dict.fromkeys(prog_sources(p) + [s for s in HINTS.get(p, []) if s in avail])] + mo
        out = os.path.join(BUILD, "bin", _h("bin", p, str(san), " ".join(extra), *ol) + "-" + p)
        if os.path.exists(out): return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        try:
            _link(p, ol, out, san)
        except BuildError:
            return None
        return out
    with ThreadPoolExecutor(max_workers=8) as ex:
        for p, o in zip(progs, ex.map(link_one, progs)):
            res[p] = o
    missing = [p for p in progs if res[p] is None]
    if missing:
        full = compile_many(lib_sources(), san, extra)
        for p in missing:
            ol = list(dict.fromkeys([objs[s] for s in prog_sources(p)] + list(full.values()) + mo))
            out = os.path.join(BUILD, "bin", _h("binfull", p, str(san), " ".join(extra), *ol) + "-" + p)
            if not os.path.exists(out):
                _link(p, ol, out, san)
            res[p] = out
    return res

def harness(src, like, san=True, without=(), extra=()):
    """Link a driver of our own (absolute path) with the library sources the
    program `like` needs (except those it includes itself); -> path."""
    os.makedirs(BUILD, exist_ok=True)
    avail = set(lib_sources()) - set(without)
    lib = [s for s in HINTS[like] if s in avail]
    first = {src: compile_obj(src, san, extra)}
    objs = {**first, **compile_many(lib, san)}
    for attempt in (0, 1):
        ol = list(dict.fromkeys(objs.values()))
        out = os.path.join(BUILD, "bin", _h("harness", str(san), *ol) + "-" + os.path.basename(src)[:-3])
        if os.path.exists(out): return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        try: _link(src, ol, out, san); return out
        except BuildError:
            if attempt: raise
            objs = {**first, **compile_many([s for s in lib_sources() if s not in without], san)}

if __name__ == "__main__":
    import time
    t = time.time()
    if sys.argv[1:] == ["--warm"]:
        # setup: prove the tool chain works; each check builds what it needs itself
        try: build(["apertium-pretransfer", "apertium-destxt"])
        except BuildError as e: print("setup: %s" % e); sys.exit(1)
        sys.exit(0)
    progs = sys.argv[1:] or [p for p in dict.fromkeys(makefile()["bin_PROGRAMS"])]
    for k, v in build(progs).items(): print(k, v)
    print("%.1fs" % (time.time() - t))
