"""Apertium stream format: tokenizer (the oracle's reader) and generators."""
import random
RESERVED = set("[]{}^$/\\@<>")

class Malformed(Exception):
    pass

def tokenize(s, chunks=True):
    """-> list of (kind, raw) with kind in text, blank, wblank, lu, nul.
    raw of blank/wblank/lu excludes the delimiters' outermost characters:
    blank '[x]' -> 'x', wblank '[[x]]' -> 'x', lu '^x$' -> 'x' (chunk braces kept)."""
    out = []; i = 0; n = len(s); text = []
    def flush():
        if text:
            out.append(("text", "".join(text))); text.clear()
    while i < n:
        c = s[i]
        if c == "\\":
            if i + 1 >= n: raise Malformed("trailing backslash")
            text.append(s[i:i+2]); i += 2
        elif c == "[":
            flush()
            wb = s.startswith("[[", i)
            j = i + (2 if wb else 1); b = j
            while True:
                if j >= n: raise Malformed("unterminated blank at %d" % i)
                if s[j] == "\\": j += 2; continue
                if s[j] == "]":
                    if not wb or s.startswith("]]", j): break
                    raise Malformed("single ] in wblank")
                if s[j] == "[": raise Malformed("[ inside blank at %d" % j)
                j += 1
            out.append(("wblank" if wb else "blank", s[b:j])); i = j + (2 if wb else 1)
        elif c == "^":
            flush()
            j = i + 1; depth = 0; b = j
            while True:
                if j >= n: raise Malformed("unterminated unit at %d" % i)
                d = s[j]
                if d == "\\": j += 2; continue
                if d == "{": depth += 1
                elif d == "}":
                    depth -= 1
                    if depth < 0: raise Malformed("unbalanced } at %d" % j)
                elif d == "$" and depth == 0: break
                elif d == "^" and depth == 0: raise Malformed("^ inside unit at %d" % j)
                elif d == "\0": raise Malformed("NUL inside unit")
                j += 1
            out.append(("lu", s[b:j])); i = j + 1
        elif c == "\0":
            flush(); out.append(("nul", c)); i += 1
        elif c in "]$}{":
            raise Malformed("stray %s at %d" % (c, i))
        else:
            text.append(c); i += 1
    flush()
    return out

def untok(toks):
    f = {"text": "%s", "blank": "[%s]", "wblank": "[[%s]]", "lu": "^%s$", "nul": "%s"}
    return "".join(f[k] % v for k, v in toks)

def split_unescaped(s, sep):
    """Split on a separator character outside escapes."""
    out = [[]]; i = 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            out[-1].append(s[i:i+2]); i += 2
        elif s[i] == sep:
            out.append([]); i += 1
        else:
            out[-1].append(s[i]); i += 1
    return ["".join(x) for x in out]

def esc(s):
    return "".join("\\" + c if c in RESERVED else c for c in s)

def unesc(s):
    out = []; i = 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s): i += 1
        out.append(s[i]); i += 1
    return "".join(out)

# ------------------------------------------------------------ generators
WORDCH = "abcdefghijklmnopqrstuvwxyz"
ODD = list("éñçßøÆİıſǅŉﬁαβγДжש日本語ก़٣‿’") + ["😀", "𝔘", "𐐀", "e\u0301", "\u200b", "\u00ad"]
def word(r, odd=0.15, esc_p=0.08, upper=0.2, maxlen=6):
    n = r.randint(1, maxlen); s = []
    for _ in range(n):
        x = r.random()
        if x < odd: s.append(r.choice(ODD))
        elif x < odd + esc_p: s.append("\\" + r.choice("[]{}^$/\\@<>"))
        else: s.append(r.choice(WORDCH))
    w = "".join(s)
    y = r.random()
    if y < upper / 2: w = w[:1].upper() + w[1:] if w[0] != "\\" else w
    elif y < upper: w = upcase(w)
    return w
def upcase(w):
    return "".join(c if (i and w[i-1] == "\\") else c.upper() if len(c.upper()) == 1 else c for i, c in enumerate(w))

def text(r, esc_p=0.15):
    k = r.random()
    if k < 0.55: return " "
    if k < 0.65: return ""
    n = r.randint(1, 5); s = []
    for _ in range(n):
        x = r.random()
        if x < esc_p: s.append("\\" + r.choice("[]{}^$/\\@<>"))
        elif x < 0.5: s.append(r.choice(" \n\t.,;:!?-'\"&*#+~=%()0123456789_|`"))
        else: s.append(r.choice(WORDCH) if r.random() < .8 else r.choice(ODD))
    return "".join(s)

def blank(r):
    n = r.randint(0, 8); s = []
    for _ in range(n):
        x = r.random()
        if x < 0.3: s.append("\\" + r.choice("[]{}^$/\\@<>"))
        elif x < 0.6: s.append(r.choice(" \n\t<>/bi=\"'#+~&;"))
        else: s.append(r.choice(WORDCH))
    b = "".join(s)
    return b

def wblank(r):
    return "t:%s:%s" % (r.choice(["b", "i", "a", "span", "text"]), "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.randint(1, 6))))
def tags(r, lo=0, hi=4, pool=("n", "adj", "vblex", "sg", "pl", "m", "f", "p3", "pri", "det", "def", "np", "cnjcoo", "a.b", "2", "px1sg", "é")):
    return "".join("<%s>" % r.choice(pool) for _ in range(r.randint(lo, hi)))
