"""Transfer rule language: reference interpreter for the transfer, interchunk
and postchunk stages, written from the language's documentation (transfer.dtd,
interchunk.dtd, postchunk.dtd) and independent of the C++ code's structure.

A program is a dict:
  kind: transfer|interchunk|postchunk, default: lu|chunk
  cats:  [(name, [(lemma|None, tags)])]     attrs: [(name, [tags])]
  vars:  [(name, value)]   lists: [(name, [values])]
  macros: [(name, npar, [stmt])]   rules: [([cat], [stmt])]
Statements and expressions are nodes (name, {attr: value}, [children]).
"""
import re
from xml.sax.saxutils import quoteattr
import icu
from functools import lru_cache
from itertools import product

# --------------------------------------------------------------- XML output
def xml_node(n, ind=2):
    name, at, ch = n
    s = " " * ind + "<" + name + "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in at.items() if v is not None)
    if not ch: return s + "/>\n"
    return s + ">\n" + "".join(xml_node(c, ind + 1) for c in ch) + " " * ind + "</%s>\n" % name

def to_xml(p):
    o = ['<?xml version="1.0" encoding="UTF-8"?>\n']
    o.append("<%s%s>\n" % (p["kind"], ' default="%s"' % p["default"] if p["kind"] == "transfer" and p.get("default") else ""))
    o.append("<section-def-cats>\n")
    for n, items in p["cats"]:
        o.append("<def-cat n=%s>\n" % quoteattr(n))
        for lem, tags in items:
            if p["kind"] == "postchunk":
                o.append("<cat-item name=%s/>\n" % quoteattr(lem or ""))
            else:
                o.append("<cat-item%s tags=%s/>\n" % ("" if lem is None else " lemma=%s" % quoteattr(lem), quoteattr(tags)))
        o.append("</def-cat>\n")
    o.append("</section-def-cats>\n<section-def-attrs>\n")
    for n, items in p["attrs"]:
        o.append("<def-attr n=%s>%s</def-attr>\n" % (quoteattr(n), "".join("<attr-item tags=%s/>" % quoteattr(t) for t in items)))
    o.append("</section-def-attrs>\n<section-def-vars>\n")
    for n, v in p["vars"]:
        o.append("<def-var n=%s%s/>\n" % (quoteattr(n), "" if v == "" else " v=%s" % quoteattr(v)))
    o.append("</section-def-vars>\n")
    if p["lists"]:
        o.append("<section-def-lists>\n")
        for n, items in p["lists"]:
            o.append("<def-list n=%s>%s</def-list>\n" % (quoteattr(n), "".join("<list-item v=%s/>" % quoteattr(t) for t in items)))
        o.append("</section-def-lists>\n")
    if p["macros"]:
        o.append("<section-def-macros>\n")
        for n, npar, body in p["macros"]:
            o.append("<def-macro n=%s npar=\"%d\">\n%s</def-macro>\n" % (quoteattr(n), npar, "".join(xml_node(s) for s in body)))
        o.append("</section-def-macros>\n")
    o.append("<section-rules>\n")
    for pat, body in p["rules"]:
        o.append("<rule><pattern>%s</pattern>\n<action>\n%s</action></rule>\n" % (
            "".join("<pattern-item n=%s/>" % quoteattr(c) for c in pat), "".join(xml_node(s) for s in body)))
    o.append("</section-rules>\n</%s>\n" % p["kind"])
    return "".join(o)

# ----------------------------------------------------------------- matching
def _units(s):
    """Units of a word: ('c', lowercased char) and ('t', tag)."""
    out = []; i = 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            out.append(("c", s[i + 1].lower() if len(s[i + 1].lower()) == 1 else s[i + 1])); i += 2
        elif c == "<":
            j = s.index(">", i); out.append(("t", s[i + 1:j])); i = j + 1
        else:
            out.append(("c", c.lower() if len(c.lower()) == 1 else c)); i += 1
    return out

def _item_regex(lemma, tags):
    """Category item as a regex over the encoded unit string."""
    r = ""
    if not lemma: r += "(?:c.)+"
    else:
        for ch in re.findall(r"\\.|.", lemma, re.S): r += "(?:c.)+" if ch == "*" else "c" + re.escape(ch[-1])
    if tags:
        for t in tags.split("."):
            r += "(?:t[^\x01]*\x01)+" if t == "*" else "t" + re.escape(t) + "\x01"
    return r

def _encode(units):
    return "".join("c" + v if k == "c" else "t" + v + "\x01" for k, v in units)

class Matcher:
    def __init__(self, prog):
        self.kind = prog["kind"]
        # A sequence of category items that several rules share belongs to the
        # first of them: the compiled rules keep one rule per sequence.
        cats = {n: {_item_regex(l, t) for l, t in items} for n, items in prog["cats"]}
        self.rules = []; seen = set()
        for k, (pat, body) in enumerate(prog["rules"]):
            seqs = [x for x in product(*[sorted(cats[c]) for c in pat]) if x not in seen]
            seen.update(seqs)
            if seqs: self.rules.append((k, len(pat), seqs))
        self.cache = {}
    def key(self, word):
        """The part of the word that is matched, encoded."""
        if self.kind == "transfer": word = split1(word, "/")[0]
        else: word = split1(word, "{")[0]
        if self.kind == "postchunk": word = split1(word, "<")[0]
        return _encode(_units(word))
    def ok(self, item, enc):
        k = (item, enc)
        if k not in self.cache: self.cache[k] = bool(re.fullmatch(item, enc, re.S))
        return self.cache[k]
    def best(self, encs, pos, banned):
        """(rule index, length) of the longest, earliest-written match."""
        best = None
        for k, n, seqs in self.rules:
            if k in banned or pos + n > len(encs): continue
            if best and n <= best[1]: continue
            if any(all(self.ok(c, encs[pos + i]) for i, c in enumerate(q)) for q in seqs): best = (k, n)
        return best

def split1(s, sep):
    """Split at the first unescaped separator (outside tags)."""
    i = 0; tag = False
    while i < len(s):
        if s[i] == "\\": i += 2; continue
        if s[i] == sep and not (tag and sep == "/"): return s[:i], s[i + 1:]
        if s[i] == "<": tag = True
        elif s[i] == ">": tag = False
        i += 1
    return s, None

# --------------------------------------------------------------- attributes
@lru_cache(maxsize=4096)
def attr_regex(items):
    alts = sorted({t for t in items}, key=lambda t: -len(t))
    return re.compile("|".join("".join("<%s>" % re.escape(x) for x in t.split(".")) for t in alts), re.I | re.S)
PRE = {"lem": re.compile(r"\A(?:[^<\\]|\\.)+", re.S), "lemq": re.compile(r"(?<!\\)#[- _](?:[^<\\]|\\.)+", re.S), "lemh": re.compile(r"\A(?:[^<#\\]|\\.)+", re.S),
       "whole": re.compile(r".+", re.S), "tags": re.compile(r"(?<!\\)(?:<[^>]+>)+", re.S),
       "chname": re.compile(r"\{[^/]+/", re.S), "chcontent": re.compile(r"\{.+", re.S), "content": re.compile(r"\{.+", re.S)}

def rx_match(rx, s):
    m = rx.search(s)
    return m.group(0) if m else ""
def rx_set(rx, s, v):
    m = rx.search(s)
    return s[:m.start()] + v + s[m.end():] if m else s

def combine(a, b):
    if not a: return b
    if not b: return a
    return a[:-2] + "; " + b[2:]

class TWord:
    def __init__(self, sl, tl, ref, wb, q=0):
        self.f = {"sl": sl, "tl": tl, "ref": ref}; self.wb = wb; self.q = q
    def get(self, rx, side, queue=True):
        s = self.f[side]
        return rx_match(rx, s if queue else s[:max(0, len(s) - self.q)])
    def set(self, rx, side, v, queue=True):
        s = self.f[side]
        if queue: self.f[side] = rx_set(rx, s, v)
        else:
            k = max(0, len(s) - self.q)
            self.f[side] = rx_set(rx, s[:k], v) + s[k:]

class CWord:
    """A chunk (interchunk) or a word inside a chunk (postchunk)."""
    def __init__(self, s):
        self.wb = ""; self.queue = ""
        h, c = split1(s, "{")
        if c is not None: self.head = h; self.queue = "{" + c
        elif s.startswith("[["):
            k = wb_end(s); self.wb = s[:k]; self.head = s[k:]
        else: self.head = s
    def get(self, rx, side=None, queue=True):
        r = rx_match(rx, self.head)
        if r == "":
            r = rx_match(rx, self.queue)
            return r if r == self.queue else ""
        if r == self.head: return rx_match(rx, self.head + self.queue)
        return r
    def set(self, rx, side, v, queue=True):
        self.head = rx_set(rx, self.head, v)

def wb_end(s):
    i = 2
    while not s.startswith("]]", i): i += 2 if s[i] == "\\" else 1
    return i + 2

class BadProgram(Exception):
    pass

class Interp:
    def __init__(self, prog, dict_case=False, lookup=None):
        self.p = prog; self.kind = prog["kind"]; self.m = Matcher(prog)
        self.attrs = dict(PRE)
        for n, items in prog["attrs"]: self.attrs[n] = attr_regex(tuple(items))
        self.defaults = dict(prog["vars"]); self.lists = {n: set(v) for n, v in prog["lists"]}
        self.listslow = {n: {icu.lower(x) for x in v} for n, v in prog["lists"]}
        self.macros = {n: (npar, b) for n, npar, b in prog["macros"]}
        self.dc = dict_case
        self.lookup = lookup         # how words get their tl/ref
        self.stats = {}
        self.matched_lengths = []
        self.reset()
    def reset(self):
        self.vars = dict(self.defaults); self.varwb = {}
    def ev(self, k): self.stats[k] = self.stats.get(k, 0) + 1
    # ---- expression evaluation
    def pos(self, at):
        k = int(at["pos"])
        return self.words[k if self.kind == "postchunk" else k - 1]
    def copycase(self, src, dst):
        if self.dc: return dst
        a = dst.find("<"); b = dst.rfind(">")
        if a < 0 or b < 0: return icu.copycase(src, dst)
        cs = icu.getcase(src)
        t = dst[b + 1:]
        return icu.copycase(cs, dst[:a]) + dst[a:b + 1] + (icu.upper(t) if cs == "AA" else icu.lower(t))
    def track(self, part, w):
        """Word-bound blank bookkeeping of a lemma clip."""
        if part in ("lem", "lemh", "whole"):
            if self.in_lu and self.multi(): self.outwb = combine(self.outwb, w.wb)
            elif self.let_var is not None: self.letwb = combine(self.letwb, w.wb)
    def multi(self):
        return (self.nwords if self.kind == "postchunk" else self.matched) > 1
    def val(self, n):
        name, at, ch = n
        self.ev(name)
        if name == "clip":
            if self.kind == "postchunk" and int(at["pos"]) > self.nwords: return ""
            w = self.pos(at); rx = self.attrs[at["part"]]
            if self.kind == "interchunk":
                r = w.get(rx)
                return r[1:-1] if at["part"] == "content" else r
            if self.kind == "postchunk":
                self.track(at["part"], w)
                return w.get(rx)
            q = at.get("queue") != "no"
            r = w.get(rx, at["side"], q)
            if at.get("link-to"): return "<%s>" % at["link-to"] if r else ""
            if at["side"] != "ref": self.track(at["part"], w)
            return r
        if name == "lit": return at["v"]
        if name == "lit-tag": return "<" + at["v"].replace(".", "><") + ">"
        if name == "var":
            if self.let_var is not None: self.letwb = combine(self.letwb, self.varwb.get(at["n"], ""))
            elif self.kind != "interchunk" and self.multi(): self.outwb = combine(self.outwb, self.varwb.get(at["n"], ""))
            return self.vars.get(at["n"], "")
        if name == "b":
            if not self.queue: return " "
            return self.queue.pop(0) if self.in_out else self.queue[0]
        if name == "get-case-from":
            if self.kind == "postchunk" and int(at["pos"]) > self.nwords: return ""
            d = self.val(ch[0])
            w = self.pos(at)
            return self.copycase(w.get(self.attrs["lem"], "sl"), d)
        if name == "case-of":
            if self.kind == "postchunk" and int(at["pos"]) > self.nwords: return "" 
            return icu.getcase(self.pos(at).get(self.attrs[at["part"]], at.get("side")))
        if name == "concat": return "".join(self.val(c) for c in ch)
        if name == "lu-count": return str(self.lu_count)
        if name == "lu": return self.lu(n)
        if name == "mlu": return self.mlu(n)
        if name == "chunk": return self.chunk(n)
        raise BadProgram(name)
    def finish_lu(self, s):
        if (self.nwords if self.kind == "postchunk" else self.matched) == 1 and self.words:
            self.outwb = self.words[1 if self.kind == "postchunk" else 0].wb
        return self.outwb + "^" + s + "$" if s else ""
    def lu(self, n):
        self.in_lu = True; self.outwb = ""
        s = "".join(self.val(c) for c in n[2])
        self.in_lu = False
        if s.startswith("[["): raise BadProgram("a finished word inside a word")
        return self.finish_lu(s)
    def mlu(self, n):
        self.in_lu = True; self.outwb = ""; v = ""; first = True
        for l in n[2]:
            s = "".join(self.val(c) for c in l[2])
            if not first:
                if s and s[0] != "#": v += "+"
            elif s: first = False
            v += s
        self.in_lu = False
        return self.finish_lu(v)
    def chunk(self, n):
        _, at, ch = n
        if self.kind == "interchunk": return "^" + "".join(self.val(c) for c in ch) + "$"
        name = at["name"] if at.get("name") else self.vars.get(at["namefrom"], "")
        s = "^" + (name if self.dc else icu.copycase(self.vars.get(at.get("case", "aa"), ""), name))
        for c in ch:
            if c[0] == "tags": s += "".join(self.val(v) for t in c[2] for v in t[2]) + "{"
            else: s += self.val(c)
        return s + "}$"
    def test(self, n):
        name, at, ch = n
        self.ev(name)
        if name == "and": return all(self.test(c) for c in ch)
        if name == "or": return any(self.test(c) for c in ch)
        if name == "not": return not self.test(ch[0])
        a = self.val(ch[0]); low = at.get("caseless") == "yes"
        if low: a = icu.lower(a)
        if ch[1][0] == "list":
            L = (self.listslow if low else self.lists)[ch[1][1]["n"]]
            if name == "in": return a in L
            if name == "begins-with-list": return any(a.startswith(x) for x in L)
            if name == "ends-with-list": return any(a.endswith(x) for x in L)
        b = self.val(ch[1])
        if low: b = icu.lower(b)
        if name == "equal": return a == b
        if name == "begins-with": return a.startswith(b)
        if name == "ends-with": return a.endswith(b)
        if name == "contains-substring": return b in a
        raise BadProgram(name)
    # ---- statements; return None or number of words to consume
    def block(self, ss):
        for s in ss:
            r = self.stmt(s)
            if r is not None: return r
        return None
    def stmt(self, n):
        name, at, ch = n
        self.ev(name)
        if name == "choose":
            for c in ch:
                if c[0] == "when":
                    if self.test(c[2][0][2][0]): return self.block(c[2][1:])
                else: return self.block(c[2])
            return None
        if name == "let":
            l, v = ch
            if l[0] == "var":
                x = l[1]["n"]
                self.let_var = x; self.letwb = ""
                r = self.val(v); self.varwb[x] = self.letwb
                if len(r) > 5000: raise BadProgram("growing variable")
                self.vars[x] = r; self.let_var = None
            else:
                if self.kind == "postchunk" and int(l[1]["pos"]) > self.nwords: return None
                r = self.val(v)
                self.pos(l[1]).set(self.attrs[l[1]["part"]], l[1].get("side"), r, l[1].get("queue") != "no")
            return None
        if name == "append":
            for c in ch:
                self.let_var = at["n"]; self.letwb = ""
                r = self.val(c); self.varwb[at["n"]] = combine(self.varwb.get(at["n"], ""), self.letwb)
                if len(r) > 5000 or len(self.vars.get(at["n"], "")) > 5000: raise BadProgram("growing variable")
                self.vars[at["n"]] = self.vars.get(at["n"], "") + r
                self.let_var = None
            return None
        if name == "out":
            self.in_out = True
            for c in ch: self.out.append(self.val(c))
            self.in_out = False
            self.wrote = True
            return None
        if name == "modify-case":
            if self.dc: return None
            l, v = ch
            if l[0] == "var": self.vars[l[1]["n"]] = icu.copycase(self.val(v), self.vars.get(l[1]["n"], ""))
            else:
                if self.kind == "postchunk" and int(l[1]["pos"]) > self.nwords: return None
                w = self.pos(l[1]); rx = self.attrs[l[1]["part"]]
                w.set(rx, l[1].get("side"), icu.copycase(self.val(v), w.get(rx, l[1].get("side"), l[1].get("queue") != "no")))
            return None
        if name == "call-macro":
            npar, body = self.macros[at["n"]]
            saved = (self.words, self.nwords)
            idx = [int(c[1]["pos"]) for c in ch]
            if self.kind == "postchunk":
                if any(i > self.nwords for i in idx): return None
                self.words = [self.words[0]] + [self.words[i] for i in idx]
            else: self.words = [self.words[i - 1] for i in idx]
            self.nwords = npar
            for s in body: self.stmt(s)
            self.words, self.nwords = saved
            return None
        if name == "reject-current-rule":
            v = at["shifting"]
            return 1 if v == "yes" else 0 if v == "no" else int(v)
        raise BadProgram(name)
    # ---- running
    def run(self, segs):
        """segs: list of ([(blank, word)], tail) -> list of outputs.  A word is
        what stands between ^ and $, with a word-bound blank's text before it."""
        res = []
        for toks, tail in segs:
            self.reset(); self.out = []
            self.segment(toks)
            self.out.append(tail)
            res.append("".join(self.out))
        return res
    def strip_wb(self, w):
        if w.startswith("[["):
            k = wb_end(w); return w[:k], w[k + 1:]
        return "", w
    def segment(self, toks):
        n = len(toks)
        sw = [self.strip_wb(w) for _, w in toks]
        encs = [self.m.key(w) for _, w in sw]
        i = 0; blank_done = -1
        while i < n:
            if blank_done < i: self.out.append(toks[i][0]); blank_done = i
            banned = set(); consumed = None
            while consumed is None:
                b = self.m.best(encs, i, banned)
                if b is None:
                    self.default(sw[i]); consumed = 1; self.ev("default_word"); break
                k, ln = b
                r = self.apply(self.p["rules"][k][1], toks, sw, i, ln)
                self.ev("rule_applied"); self.matched_lengths.append(ln)
                if r is None: consumed = ln
                elif r == 0: banned.add(k); self.ev("reject")
                else: consumed = r; self.ev("reject_shift")
            i += consumed
            blank_done = i - 1
    def apply(self, body, toks, sw, i, ln):
        if self.kind == "postchunk":
            words, blanks, head = split_chunk(toks[i][1], self.dc)
            self.words = [CWord(head)] + [CWord(w) for w in words]
            self.nwords = self.lu_count = len(words); self.queue = blanks; qall = None
        else:
            self.words = [self.make(sw[j]) for j in range(i, i + ln)]
            self.nwords = ln
            self.queue = [toks[j][0] for j in range(i + 1, i + ln)]
        self.matched = ln
        self.in_lu = self.in_out = False; self.let_var = None; self.outwb = ""; self.wrote = False
        r = self.block(body)
        if r == 0:
            if self.wrote: raise BadProgram("output before reject")
            return r
        q = self.queue
        if r is not None and self.kind != "postchunk":
            drop = ln - r            # those are read again
            if len(q) < drop: raise BadProgram("reject after using later blanks")
            q = q[:len(q) - drop] if drop > 0 else q
        self.out.extend(b for b in q if b != " ")
        return r
    def make(self, w):
        wb, s = w
        if self.kind == "interchunk": return CWord(s)
        sl, tl, ref, q, wb = self.lookup(wb, s)
        return TWord(sl, tl, ref, wb, q)
    def default(self, w):
        wb, s = w
        if self.kind == "interchunk": self.out.append("^" + s + "$"); return
        if self.kind == "postchunk":
            self.out.append(unchunk(s, self.dc)); return
        sl, tl, ref, q, wb = self.lookup(wb, s)
        if not tl: return
        if self.p.get("default") == "chunk":
            k = "unknown" if tl.startswith("*") else "default"
            self.out.append("^%s<%s>{%s^%s$}$" % (k, k, wb, tl))
        elif tl.startswith("[["): self.out.append(tl + "$")
        else: self.out.append("%s^%s$" % (wb, tl))

def prebil(wb, s):
    """-b: the word is sl/tl.../ref as the lexical stage delivers it."""
    parts = []; rest = s
    while rest is not None:
        h, rest = split1(rest, "/"); parts.append(h)
    return parts[0], parts[1] if len(parts) > 1 else "", parts[-1] if len(parts) > 2 else "", 0, wb
def nobil(wb, s):
    return s, s, "", 0, wb

# ---------------------------------------------------------------- postchunk
_INNER = re.compile(r"\\(.)|<([^>]*)>|(.)", re.S)
def chunk_parts(chunk):
    """name, [tags], [(kind, raw)] of a chunk's contents."""
    head, rest = split1(chunk, "{")
    body = rest[:-1]
    name = split1(head, "<")[0]
    tags = [m.group(0) for m in re.finditer(r"\\.|<[^>]*>", head, re.S) if m.group(0)[0] == "<"]
    items = []; i = 0
    while i < len(body):
        if body.startswith("[[", i):
            k = i + wb_end(body[i:]); e = _end(body, k + 1, "$")
            items.append(("w", body[i:k], body[k + 1:e])); i = e + 1
        elif body[i] == "^":
            e = _end(body, i + 1, "$"); items.append(("w", "", body[i + 1:e])); i = e + 1
        elif body[i] == "[":
            e = _end(body, i + 1, "]"); items.append(("b", body[i:e + 1])); i = e + 1
        else:
            k = 2 if body[i] == "\\" else 1
            items.append(("b", body[i:i + k])); i += k
    return head, name, tags, items
def _end(s, i, c):
    while s[i] != c: i += 2 if s[i] == "\\" else 1
    return i
def _render(word, tags, st):
    out = []
    for m in _INNER.finditer(word):
        if m.group(1) is not None: out.append(m.group(0))
        elif m.group(2) is not None:
            t = m.group(2)
            if t[:1].isdigit():
                k = int(re.match(r"\d+", t).group(0)) - 1
                if 0 <= k < len(tags): out.append(tags[k])
            else: out.append(m.group(0))
        else:
            c = m.group(3)
            if st["case"] == "AA": c = c.upper()
            elif st["case"] == "Aa" and c.isalnum(): c = c.upper(); st["case"] = "aa"
            out.append(c)
    return "".join(out)
def _case(name, dc):
    return {"case": "aa" if dc else icu.getcase(name)}
def unchunk(chunk, dc):
    head, name, tags, items = chunk_parts(chunk); st = _case(name, dc)
    return "".join(x[1] if x[0] == "b" else x[1] + "^" + _render(x[2], tags, st) + "$" for x in items)
def split_chunk(chunk, dc):
    """words, blanks for the rule's queue, head."""
    head, name, tags, items = chunk_parts(chunk); st = _case(name, dc)
    words = []; blanks = [""]
    for x in items:
        if x[0] == "b": blanks[-1] += x[1]
        else: words.append(x[1] + _render(x[2], tags, st)); blanks.append("")
    # blanks[0] stands before the first word, blanks[-1] after the last
    lead = blanks[0]; mid = blanks[1:]
    tail = mid.pop() if mid else ""
    if mid: mid[0] = lead + mid[0]; lead = ""
    q = mid + ([lead + tail] if lead + tail else [])
    return words, q, head

# =============================================================== generators
LEMMAS = ["3d", "-é", "cat", "dog", "ab", "abc", "é", "ñandú", "big", "the", "zu", "go", "foo bar", "дом", "x", "l'", "a-b"]
TEMPL = [["n", "GEN", "NUM"], ["n", "NUM"], ["adj", "GEN", "NUM"], ["det", "def", "GEN", "NUM"], ["vblex", "TNS", "PER", "NUM"],
         ["vblex", "inf"], ["np", "loc"], ["prn", "PER"], ["cm"], ["n", "acr", "NUM"], ["pr"]]
POOL = {"GEN": ["m", "f", "mf", "GD"], "NUM": ["sg", "pl", "sp", "ND"], "TNS": ["past", "pri", "inf"], "PER": ["p1", "p2", "p3"]}
CHTAGS = [["SN", "GEN", "NUM"], ["SV", "PER", "NUM"], ["SA"], ["SN", "UNDET", "NUM"], ["default"], ["SP", "GEN"]]
def rcase(r, w):
    x = r.random()
    if x < .7: return w
    if x < .85: return w[:1].upper() + w[1:]
    return w.upper()
def lemma(r, pool=LEMMAS):
    w = r.choice(pool)
    if pool is LEMMAS and r.random() < .01: w = "".join(r.choice("abéд -") for _ in range(r.choice([20, 70, 300]))).strip() + "z"
    if r.random() < .08: w += r.choice(["\\/", "\\[", "\\^", "\\$", "\\]", "\\@", "1", "\\{", "\\<", "\\>", "\\<b\\>", "\\#"] ) + r.choice(["", "q"])
    return rcase(r, w)
def rndtag(r): return r.choice("aaab") + "".join(r.choice("abc-") for _ in range(r.choice([0, 1, 1, 1, 2, 3])))
def rtags(r, templ=TEMPL):
    t = [r.choice(POOL[x]) if x in POOL else x for x in r.choice(templ)]
    if r.random() < .12: t.append(r.choice(["extra", "sg", "m", "2nd"[1:], "SG"]))
    if r.random() < .05: t.pop()
    if r.random() < .12: t.append(rndtag(r))
    return "".join("<%s>" % x for x in t)
def tlword(r):
    x = r.random()
    l = lemma(r)
    q = ""
    if r.random() < .1: q = "# " + r.choice(["up", "de", "off on"])
    return l + q + rtags(r) if r.random() < .97 else l + q

def gen_blank(r, sb=0.25, allow_empty=True):
    x = r.random()
    if x < .5: return " "
    if x < .58 and allow_empty: return ""
    s = ""
    for _ in range(r.randint(1, 3)):
        y = r.random()
        if y < .45: s += "[%s]" % "".join(r.choice(["a", "<b>", "\\]", "\\[", " ", "\n", "\\\\", "/", "$", "^", "{", "}", "é", "\\^"][:9] + ["é"]) for _ in range(r.randint(0, 3)))
        elif y < .8: s += " "
        else: s += r.choice([".", ",", "\\^", "\\/", "\n", "x", "\\]", "\\[", ";", "\\{"])
    if r.random() < .05: s += "[%s]" % "".join(r.choice(["a", "<b>", "\\]", " ", "é"]) for _ in range(r.choice([40, 100, 300, 2000])))
    return s

class Gen:
    """Random program generator."""
    def __init__(self, r, kind, default="lu", reject=True, vb=True, queues=.12):
        self.queues = queues
        self.vb = vb                 # <b/> may occur outside <out>
        self.r, self.kind, self.default, self.reject = r, kind, default, reject
        self.macro = None
        r_ = r
        self.attrs = [("a_gen", ["m", "f", "mf", "GD"]), ("a_num", ["sg", "pl", "sp", "ND"]),
                      ("a_nom", r.sample(["n", "n.acr", "np", "np.loc", "adj", "det.def", "prn"], r.randint(2, 7))),
                      ("a_verb", ["vblex", "vblex.inf", "vblex.past", "vblex.pri"]),
                      ("a_any", r.sample(["p1", "p2", "p3", "cm", "pr", "extra", "sg", "n", "adj", "vblex", "m", "SN", "SV", "past", "det", "n.m", "sg.extra", "p"], r.randint(1, 8)))]
        if r.random() < .4: self.attrs.append(("a_rnd", list(dict.fromkeys(rndtag(r) if r.random() < .8 else rndtag(r) + "." + rndtag(r) for _ in range(r.randint(1, 12))))))
        for _, it in self.attrs: r.shuffle(it)
        self.vars = [("v%d" % i, r.choice(["", "", "<sg>", "Foo", "bar", "AA", "Aa", "aa", "<n><m>"])) for i in range(r.randint(1, 4))]
        if r.random() < .3: self.vars.append(("aa", r.choice(["", "Aa", "AA"])))
        self.lists = [("l%d" % i, [r.choice([lemma(r), rtags(r), "<sg>", "<pl>", "a", "", "Ca", "<n>"][: 8 if r.random() < .2 else 5] + ["<m>", "b"] + [r.choice([str.upper, str.capitalize, str])(r.choice(LEMMAS)) for _ in range(8)]) for _ in range(r.choice([1, 2, 4, 8, 12]))]) for i in range(r.randint(1, 2))]
        for n, v in self.lists: v[:] = list(dict.fromkeys(v))
        self.cats = []
        for i in range(r.randint(2, 6)):
            self.cats.append(("c%d" % i, [self.cat_item() for _ in range(r.choice([1, 1, 2, 3]))]))
        self.macros = []
        for i in range(r.choice([0, 0, 1, 2])):
            npar = r.randint(0 if kind == "transfer" and r.random() < .3 else 1, 2)
            self.npos = npar; self.macro = i
            body = [self.stmt(2) for _ in range(r.randint(1, 3))]
            self.macros.append(("m%d" % i, npar, body))
            self.macro = None
        self.rules = []
        for i in range(r.randint(1, 7)):
            pat = self.pattern()
            self.npos = len(pat)
            self.rules.append((pat, self.action(len(pat))))
        self.prog = {"kind": kind, "default": default, "cats": self.cats, "attrs": self.attrs, "vars": self.vars,
                     "lists": self.lists, "macros": self.macros, "rules": self.rules}
    def pattern(self):
        r = self.r
        if self.kind == "postchunk": return [r.choice(self.cats)[0]]
        if r.random() < .06:          # long ones
            few = [n for n, it in self.cats if len(it) == 1] or [self.cats[0][0]]
            return [r.choice(few) for _ in range(r.choice([5, 7, 10]))] if len(dict(self.cats)[few[0]]) == 1 else few
        return [r.choice(self.cats)[0] for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    def catlemma(self):
        r = self.r
        w = r.choice(LEMMAS).lower()
        x = r.random()
        if x < .4: return w
        if x < .6: return w[:1] + "*"
        if x < .8: return "*" + w[-1:]
        if x < .9: return w[:1] + "*" + w[-1:]
        return "*"
    def cat_item(self):
        r = self.r
        if self.kind == "postchunk": return (self.catlemma() if r.random() < .7 else r.choice(["*", "c*", "a*", "default"]), "")
        lem = self.catlemma() if r.random() < .3 else None
        if lem is None and r.random() < .06 and self.kind == "transfer": return (None, "")
        t = [r.choice(POOL[x]) if x in POOL and r.random() < .8 else x for x in r.choice(TEMPL if self.kind == "transfer" else CHTAGS)]
        t = [("*" if x in POOL else x) for x in t]
        x = r.random()
        if x < .55: t = t[:1] + ["*"]
        elif x < .65: t = ["*"] + t[-1:]
        elif x < .72: t = ["*"]
        out = []
        for y in t:
            if y == "*" and out and out[-1] == "*": continue
            out.append(y)
        return (lem, ".".join(out))
    # ---- expressions
    def part(self):
        r = self.r
        base = ["lem", "lem", "lemh", "lemq", "whole", "tags"] if self.kind != "interchunk" else ["lem", "lem", "tags", "content", "chcontent", "whole"]
        return r.choice(base + [a for a, _ in self.attrs])
    def pos(self):
        if self.kind == "postchunk":
            return self.r.choice([0, 1, 1, 1, 2, 2, 3]) if self.macro is None else self.r.randint(0, max(self.npos, 1))
        return self.r.randint(1, max(self.npos, 1))
    def clip(self, part=None, side=None, lhs=False):
        r = self.r
        at = {"pos": self.pos()}
        if self.kind == "transfer":
            at["side"] = side or r.choice(["tl", "tl", "tl", "sl", "ref"])
            if self.queues > .3: at["side"] = r.choice(["tl", "tl", "sl"])
            if lhs and self.queues < .3 and at["side"] == "sl" and r.random() < .5: at["side"] = "tl"
        at["part"] = part or self.part()
        if lhs and self.kind != "transfer" and at["part"] in ("content", "chcontent", "whole"): at["part"] = "lem"
        if self.kind == "transfer":
            if r.random() < self.queues: at["queue"] = r.choice(["no", "yes"])
            if not lhs and r.random() < .06: at["link-to"] = str(r.randint(1, 4))
        return ("clip", at, [])
    def usable(self): return not (self.macro is not None and self.npos == 0)
    def var(self): return ("var", {"n": self.r.choice(self.vars)[0]}, [])
    def value(self, d=2, b=True):
        r = self.r; x = r.random()
        if x < .45 and self.usable(): return self.clip()
        if x < .6: return self.var()
        if x < .72: return ("lit", {"v": r.choice(["", "foo", "Bar", "<sg>", "AA", "Aa", "aa", "x", rcase(r, r.choice(LEMMAS))])}, [])
        if x < .84: return ("lit-tag", {"v": r.choice(["sg", "pl", "n.m", "adj", "f", "p3", "SN"])}, [])
        if x < .88 and self.usable(): return self.caseof()
        if x < .92 and self.usable(): return self.casefrom()
        if x < .94 and b and self.vb: return ("b", {}, [])
        if d > 0: return ("concat", {}, [self.value(d - 1) for _ in range(r.randint(1, 3))])
        if self.kind == "postchunk": return ("lu-count", {}, [])
        return self.var()
    def caseof(self):
        at = {"pos": self.pos()}
        if self.kind == "transfer": at["side"] = self.r.choice(["sl", "tl"])
        at["part"] = self.r.choice(["lem", "lem", "lemh" if self.kind != "interchunk" else "lem", "tags"])
        return ("case-of", at, [])
    def casefrom(self):
        p = self.pos()
        if self.kind == "postchunk" and p == 0: p = 1
        c = self.r.choice([self.clip, self.var]) if self.usable() else self.var
        k = c() if c != self.clip else self.clip(part=self.r.choice(["lem", "lemh" if self.kind != "interchunk" else "lem", "whole", "tags"]))
        return ("get-case-from", {"pos": p}, [k])
    def cond(self, d=2):
        r = self.r; x = r.random()
        if d > 0 and x < .2:
            k = r.choice(["and", "or"])
            return (k, {}, [self.cond(d - 1) for _ in range(r.randint(2, 3))])
        if d > 0 and x < .3: return ("not", {}, [self.cond(d - 1)])
        cl = r.choice([None, "yes", "yes", "no"])
        a = self.value(1)
        if r.random() < .5 and self.usable():
            a = self.clip(r.choice(["lem", "lem", "tags", "whole"]))
            if x >= .5 and r.random() < .7:
                w = rcase(r, r.choice(LEMMAS)) if a[1]["part"] != "tags" else rtags(r)
                k = r.choice(["equal", "begins-with", "ends-with", "contains-substring"])
                if k != "equal" and a[1]["part"] != "tags": w = w[:r.randint(1, 3)] if k == "begins-with" else w[-r.randint(1, 3):]
                return (k, {"caseless": cl}, [a, ("lit", {"v": w}, [])][:: r.choice([1, 1, 1, -1])])
        if x < .5: return (r.choice(["in", "in", "begins-with-list", "ends-with-list"]), {"caseless": cl}, [a, ("list", {"n": r.choice(self.lists)[0]}, [])])
        return (r.choice(["equal", "equal", "begins-with", "ends-with", "contains-substring"]), {"caseless": cl}, [a, self.value(1)])
    # ---- output
    def lu(self):
        r = self.r; ch = []
        if not self.usable(): return ("lu", {}, [("lit", {"v": r.choice(["foo", "lit", ""])}, []), ("lit-tag", {"v": "cm"}, [])])
        if self.kind == "postchunk":
            pr = ["whole", "lem", "tags", "a_gen", "a_num", "lemh", "lemq", "a_nom"]
        x = r.random()
        if x < .25: ch = [self.clip("whole", "tl")]
        elif x < .45: ch = [self.clip("lem", "tl"), self.clip("tags", "tl")]
        elif x < .6: ch = [self.clip("lemh", "tl"), self.clip(r.choice(["a_nom", "a_verb", "tags"]), "tl"), self.clip("lemq", "tl")]
        else:
            ch = [self.casefrom() if r.random() < .2 else self.value(1, b=False)] + [self.value(1, b=False) for _ in range(r.randint(0, 3))]
        if r.random() < .15: ch.append(self.var())
        return ("lu", {}, ch)
    def mlu(self): return ("mlu", {}, [self.lu() for _ in range(self.r.randint(2, 3))])
    def unit(self): return self.mlu() if self.r.random() < .15 else self.lu()
    def chunk(self):
        r = self.r
        if self.kind == "interchunk":
            if r.random() < .6 and self.usable():
                p = self.clip("lem"); k = p[1]["pos"]
                ch = [p] + [self.value(1, b=False) for _ in range(r.randint(0, 2))] + [("clip", {"pos": k, "part": "tags"}, [])] * r.randint(0, 1) + [("clip", {"pos": k, "part": "chcontent"}, [])]
            else: ch = [self.value(1, b=False) for _ in range(r.randint(1, 4))]
            return ("chunk", {}, ch)
        at = {}
        if r.random() < .7: at["name"] = r.choice(["sn", "Sv", "adj_nom", "é x", "AA"])
        else: at["namefrom"] = r.choice(self.vars)[0]
        if r.random() < .4: at["case"] = r.choice(self.vars)[0]
        tags = ("tags", {}, [("tag", {}, [r.choice([lambda: ("lit-tag", {"v": r.choice(["SN", "SV", "SN.m"])}, []), lambda: self.clip(r.choice(["a_gen", "a_num", "a_nom"])) if self.usable() else self.var(), self.var])()]) for _ in range(r.randint(1, 3))])
        body = []
        for k in range(r.randint(1, 4)):
            if k and r.random() < .6: body.append(("b", {}, []))
            body.append(self.unit() if r.random() < .9 else self.var())
        return ("chunk", at, [tags] + body)
    def out(self, nb=9):
        r = self.r; ch = []
        for k in range(r.randint(1, 4)):
            if k and r.random() < .7 and nb > 0: ch.append(("b", {"pos": r.randint(1, 3)} if r.random() < .5 else {}, [])); nb -= 1
            if r.random() < .07: ch.append(self.var())
            elif self.kind == "interchunk" or (self.kind == "transfer" and self.default == "chunk"): ch.append(self.chunk())
            else: ch.append(self.unit())
        return ("out", {}, ch)
    # ---- statements
    def stmt(self, d):
        r = self.r; x = r.random()
        if x < .2: return self.out()
        if x < .38:
            l = self.var() if r.random() < .5 or not self.usable() else self.clip(lhs=True)
            v = self.value()
            if l[0] == "var" and r.random() < .08 and self.kind != "interchunk": v = self.unit()
            return ("let", {}, [l, v])
        if x < .5: return ("append", {"n": r.choice(self.vars)[0]}, [self.value(1) for _ in range(r.randint(1, 2))])
        if x < .6:
            l = self.var() if r.random() < .3 or not self.usable() else self.clip(r.choice(["lem", "lemh" if self.kind != "interchunk" else "lem", "lem"] + ["whole", "tags"] * (self.kind == "transfer" and self.queues > .3)), lhs=True)
            v = r.choice([lambda: ("lit", {"v": r.choice(["aa", "Aa", "AA", ""])}, []), self.var] + ([self.caseof] if self.usable() else []))()
            return ("modify-case", {}, [l, v])
        if x < .7 and self.macros and (self.macro is None or self.macro > 0):
            cand = self.macros if self.macro is None else self.macros[:self.macro]
            if cand:
                n, npar, _ = r.choice(cand)
                if self.usable() or npar == 0:
                    return ("call-macro", {"n": n}, [("with-param", {"pos": self.pos()}, []) for _ in range(npar)])
        if d > 0: return self.choose(d - 1)
        return self.out()
    def choose(self, d):
        r = self.r
        ch = [("when", {}, [("test", {}, [self.cond()])] + [self.stmt(d) for _ in range(r.choice([0, 1, 1, 2]))]) for _ in range(r.randint(1, 3))]
        if r.random() < .6: ch.append(("otherwise", {}, [self.stmt(d) for _ in range(r.randint(1, 2))]))
        return ("choose", {}, ch)
    def rejects(self, ln):
        r = self.r
        shift = r.choice(["no", "no", "yes", str(r.randint(1, ln)), "no"]) if self.kind != "postchunk" else r.choice(["no", "no", "yes", "1"])
        n = 0 if shift == "no" else 1 if shift == "yes" else int(shift)
        body = [] if n == 0 else [self.out(nb=n - 1)] if r.random() < .7 else []
        body.append(("reject-current-rule", {"shifting": shift}, []))
        if r.random() < .2: body.append(self.out())      # must not run
        return ("choose", {}, [("when", {}, [("test", {}, [self.cond()])] + body)] + ([("otherwise", {}, [("let", {}, [self.var(), self.value(1)])])] if r.random() < .3 else []))
    def action(self, ln):
        r = self.r
        ss = []
        if self.reject and r.random() < .3: ss.append(self.rejects(ln))
        for _ in range(r.randint(0, 2)): 
            ss.append(self.stmt(2))
        if r.random() < .9: ss.append(self.out())
        return ss

def wbtext(r):
    x = r.random()
    t = "t:%s:%s" % (r.choice("bia"), "".join(r.choice("abc123") for _ in range(3)))
    if x < .04: t += r.choice(["\\\\", "x\\\\", "\\]", "\\[", "\\^x", "\\$", "\\\\\\\\", "\\\\\\]"])
    elif x < .06: t += "; t:i:" + r.choice(["z", "é", "😀"])
    return t
def word_b(r, wb=0.0, unk=.06):
    """A word as the lexical stage hands it over: sl/tl[/tl2]."""
    w = ""
    if r.random() < wb: w = "[[%s]]^" % wbtext(r)
    if r.random() < unk:
        l = lemma(r, [x for x in LEMMAS])
        return w + "*%s/*%s" % (l, l)
    s = lemma(r) + rtags(r)
    if r.random() < .04: s = lemma(r) + "# " + r.choice(["up", "de"]) + rtags(r)
    x = r.random()
    if x < .06: return w + s + "/\\@" + s
    n = r.choice([1, 1, 1, 1, 2, 3])
    return w + s + "".join("/" + tlword(r) for _ in range(n))
def word_plain(r, wb=0.0):
    w = "[[%s]]^" % wbtext(r) if wb and r.random() < wb else ""
    if r.random() < .06: return w + "*" + lemma(r)
    return w + lemma(r) + rtags(r)
def chunk_word(r, wb=0.0, head=None):
    name = rcase(r, r.choice(LEMMAS + ["sn", "default"]))
    t = [r.choice(POOL[x]) if x in POOL else x for x in r.choice(CHTAGS)]
    if head is not None: name, t = head
    if r.random() < .07: t += ["t%d" % k for k in range(r.choice([3, 7, 8, 9, 10, 15]))]
    ntags = len(t)
    t = "".join("<%s>" % x for x in t)
    body = ""
    for k in range(r.choice([0, 1, 1, 2, 2, 3]) if r.random() < .97 else r.choice([5, 12, 30])):
        if body: body += gen_blank(r)
        if r.random() < wb: body += "[[%s]]" % wbtext(r)
        w = lemma(r)
        if r.random() < .1: w = "*" + w
        else:
            if r.random() < .1: w += "# " + r.choice(["up", "De"])
            w += rtags(r)
            if r.random() < .4: w += "".join("<%d>" % r.randint(1, max(4, ntags + 1)) for _ in range(r.randint(1, 2)))
        body += "^" + w + "$"
    if r.random() < .1: body = gen_blank(r) + body
    if r.random() < .1: body += gen_blank(r)
    return name + t + "{" + body + "}"
def guided(r, prog):
    """(lemma, tags) of a sequence of words built from one rule's pattern."""
    cats = dict(prog["cats"]); out = []
    for n in r.choice(prog["rules"])[0]:
        l, t = r.choice(cats[n])
        l = r.choice(LEMMAS[:10]) if l is None else re.sub(r"\\.|\*", lambda m: m[0] if len(m[0]) > 1 else "".join(r.choice("abé") for _ in range(r.randint(1, 3))), l)
        tg = []
        for y in (t.split(".") if t else []):
            if y == "*": tg += [r.choice(["sg", "pl", "m", "f", "n", "x"]) for _ in range(r.randint(1, 2))]
            else: tg.append(y)
        out.append((rcase(r, l) if r.random() < .3 else l, tg))
    return out
def gen_segments(r, wordf, nseg=1, maxw=8, prog=None, wb=0.0):
    """Random words, or (when prog is given) now and then words of a pattern."""
    segs = []
    if r.random() < .03: maxw *= r.choice([5, 20, 20, 60])
    for _ in range(nseg):
        toks = []; n = r.randint(0, maxw)
        while len(toks) < n:
            ws = [None]
            if prog is not None and r.random() < .3: ws = guided(r, prog)
            for g in ws:
                if g is None: w = wordf(r)
                elif prog["kind"] == "transfer":
                    tg = "".join("<%s>" % x for x in g[1])
                    if not tg: w = wordf(r)
                    else:
                        w = g[0] + tg
                        if prog.get("_bil", True): w += "/" + (tlword(r) if r.random() < .7 else w)
                        if wb and r.random() < wb: w = "[[%s]]^" % wbtext(r) + w
                else: w = chunk_word(r, wb, (g[0], g[1] or ["SN"]))
                toks.append((gen_blank(r) if toks else r.choice(["", "", " ", gen_blank(r)]), w))
        segs.append((toks, r.choice(["", "", "\n", " ", gen_blank(r)])))
    return segs
def seg_text(seg):
    toks, tail = seg
    return "".join("%s%s$" % (b, w if w.startswith("[[") else "^" + w) for b, w in toks) + tail

def gen_select(r, kind, nrules=None, default="lu"):
    """A program whose rules only say which rule consumed which words."""
    L = ["a", "b", "ab", "abc", "é", "cat"]
    if r.random() < .3: L += ["a\\/b", "\\*", "a\\*b", "\\[b", "\\\\"]
    T = [["n", "sg"], ["n", "pl"], ["n", "m", "sg"], ["adj", "sg"], ["adj"], ["det", "def", "sg"], ["vblex", "pri", "sg"], ["SN", "sg"], ["SN", "m", "pl"], ["SV"]]
    cats = []; dense = r.random() < .3     # everything matches, most rules reject
    for i in range(r.randint(2, 8) if not dense else r.randint(1, 2)):
        items = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 5]) if not dense else 5):
            x = r.random()
            lem = r.choice([None, None, r.choice(L), r.choice(L[:6])[:1] + "*", "*" + r.choice(L[:6])[-1:], "*"])
            if kind == "postchunk": items.append((lem or "*", "")); continue
            t = list(r.choice(T))
            if x < .4: t = t[:1] + ["*"]
            elif x < .5: t = ["*"]
            elif x < .6 and len(t) > 1: t = ["*", t[-1]]
            elif x < .65 and len(t) > 2: t = [t[0], "*", t[-1]]
            items.append((lem, ".".join(t)))
        cats.append(("c%d" % i, items))
    rules = []
    for k in range(nrules or r.choice([2, 4, 8, 15, 30] if not dense else [2, 3, 4, 6])):
        n = 1 if kind == "postchunk" else r.choice([1, 1, 2, 2, 3, 4, 5] if not dense else [1, 1, 2, 3])
        pat = [r.choice(cats)[0] for _ in range(n)]
        body = []
        for _ in range(r.choice([0, 0, 1, 1, 2] if not dense else [0, 1, 1, 2])):
            p = r.randint(1, n) if kind != "postchunk" else 0
            side = {"side": "sl"} if kind == "transfer" else {}
            t = (r.choice(["equal", "begins-with", "ends-with", "contains-substring"]), {"caseless": r.choice([None, "yes"])},
                 [("clip", dict({"pos": p}, **side, part=r.choice(["lem", "tags", "whole"])), []), ("lit", {"v": r.choice(L + ["<n><sg>", "<sg>", "<n><pl>", "<adj>", "<SN><sg>", "<n>", ""])}, [])])
            if r.random() < .3: t = ("not", {}, [t])
            s = r.choice(["no", "no", "no", "yes"]) if kind == "postchunk" else r.choice(["no", "no", "yes", str(r.randint(1, n))])
            pre = [] if s == "no" else [("out", {}, [mark(kind, "J%d" % k, 0, default)])]
            body.append(("choose", {}, [("when", {}, [("test", {}, [t])] + pre + [("reject-current-rule", {"shifting": s}, [])])]))
        body.append(("out", {}, [mark(kind, "R%d" % k, n, default)]))
        rules.append((pat, body))
    return {"kind": kind, "default": default, "cats": cats, "attrs": [], "vars": [("x", "")], "lists": [], "macros": [], "rules": rules}
def mark(kind, label, n, default):
    """An output unit that names the rule and copies the words it matched."""
    if kind == "postchunk": ch = [("lit", {"v": label + "|"}, []), ("clip", {"pos": 0, "part": "whole"}, [])]
    else:
        side = {"side": "sl"} if kind == "transfer" else {}
        ch = [("lit", {"v": label}, [])]
        for p in range(1, n + 1): ch += [("lit", {"v": "|"}, []), ("clip", dict({"pos": p}, **side, part="whole"), [])]
    if kind == "interchunk": return ("chunk", {}, ch)
    if kind == "transfer" and default == "chunk":
        return ("chunk", {"name": "k"}, [("tags", {}, [("tag", {}, [("lit-tag", {"v": "t"}, [])])]), ("lu", {}, ch)])
    return ("lu", {}, ch)
def select_word(r, kind):
    l = r.choice(["a", "b", "ab", "abc", "é", "cat", "acb", "zz"])
    x = r.random()
    if x < .1: l = l.upper()
    elif x < .2: l = l[:1].upper() + l[1:]
    if r.random() < .05: l += r.choice(["\\/", "\\^", "\\["])
    t = r.choice([["n", "sg"], ["n", "pl"], ["n", "m", "sg"], ["n", "m", "pl"], ["adj", "sg"], ["adj"], ["det", "def", "sg"], ["vblex", "pri", "sg"], ["SN", "sg"], ["SN", "m", "pl"], ["SV"], ["xx"], ["n"]])
    w = l + "".join("<%s>" % y for y in t)
    if kind == "transfer":
        if r.random() < .05: return "*%s/*%s" % (l, l)
        return w + "/" + w
    return w + "{^%s$}" % w

def gen_big(r):
    """A rules file with hundreds of categories, attributes, variables,
    lists, macros and rules: names and numbers past one byte."""
    n = r.choice([130, 260, 260, 300])
    def sh(): x = list(range(n)); r.shuffle(x); return x
    p, q, a, l = sh(), sh(), sh(), sh()
    pos = lambda k: ("with-param", {"pos": str(k)}, [])
    lit = lambda v: ("lit", {"v": v}, [])
    macros = []
    for i in range(n):
        body = [("let", {}, [("var", {"n": "v%d" % p[i]}, []), lit("x%d" % i)])]
        if i and r.random() < .2: body.append(("call-macro", {"n": "m%d" % r.randrange(i)}, [pos(1)]))
        macros.append(("m%d" % i, 1, body))
    rules = []
    for i in range(n):
        pat = ["c%d" % i] + (["c%d" % r.randrange(n)] if r.random() < .2 else [])
        body = [("call-macro", {"n": "m%d" % q[i]}, [pos(1)]),
                ("choose", {}, [("when", {}, [("test", {}, [("in", {}, [("clip", {"pos": "1", "side": "sl", "part": "lem"}, []), ("list", {"n": "l%d" % l[i]}, [])])]),
                                              ("let", {}, [("var", {"n": "v%d" % p[i]}, []), lit("in%d" % i)])])])]
        lu = [("var", {"n": "v%d" % p[q[i]]}, []), lit("-"), ("var", {"n": "v%d" % p[i]}, []), ("lit-tag", {"v": "n.r%d" % i}, []),
              ("clip", {"pos": "1", "side": "sl", "part": "a%d" % a[i]}, [])]
        body.append(("out", {}, [("lu", {}, lu)]))
        rules.append((pat, body))
    prog = {"kind": "transfer", "default": "lu",
            "cats": [("c%d" % i, [("w%d" % i, "n.*")]) for i in range(n)],
            "attrs": [("a%d" % i, ["t%d" % i, "t%d" % ((i + 1) % n)]) for i in range(n)],
            "vars": [("v%d" % i, "i%d" % i) for i in range(n)],
            "lists": [("l%d" % i, ["w%d" % i, "w%d" % ((i * 7 + 3) % n)]) for i in range(n)],
            "macros": macros, "rules": rules}
    inv = {x: k for k, x in enumerate(l)}
    def word(r):
        i = r.randrange(n + 3)
        s = "w%d<n><t%d>" % (i, r.choice([a[i], (a[i] + 1) % n, r.randrange(n)]) if i < n else 0)
        return s + "/" + s
    return prog, word
