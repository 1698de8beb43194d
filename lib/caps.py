"""Capitalisation rules (crx): generators and a reference interpreter."""
import random, re
from xml.sax.saxutils import quoteattr
import icu, stream as S

SPECS = ["aa", "Aa", "AA", "*", "aA", "A", "a", "*aA", "A*", "aa aa", "Aa*"]
TAGS = ["n", "np", "ant", "vblex", "sent", "sg", "pl", "det", "a.b"]
LEMS = ["foo", "bar", "Foo", "iPhone", "dog", "UNESCO", "x", "McX", "a b", "été", "Ñu", ".", "über", "dogs"]

# ---- a rule: {"w": weight or None, "b": [node]}; node = ("match", attrs) | ("or", [node]) | ("repeat", f, u, [node]) | ("begin",)
def gen_match(r):
    a = {}
    if r.random() < .35: a["lemma"] = r.choice([lambda: r.choice(LEMS), lambda: r.choice(LEMS), lambda: "*" + r.choice("oxgs"), lambda: r.choice("fdbFix") + "*", lambda: "*o*"])()
    elif r.random() < .3: a["trglem"] = r.choice(SPECS)
    if r.random() < .45:
        n = r.randint(1, 3); t = [r.choice(TAGS[:-1]) for _ in range(n)]
        if r.random() < .5: t.append(r.choice(["*", "+", "?"]))
        if r.random() < .2: t.insert(0, r.choice(["*", "+", "?"]))
        a["tags"] = ".".join(t)
    elif r.random() < .15: a["tags"] = r.choice(["", "+", "?", "?.?", "*", "?.n", "*.+", "*.?", "+.?", "+.+", "?.+", "n.*.?", "n.+.?", "*.n.?", "+.*.n", "*.*"])
    if r.random() < .2: a["surface"] = r.choice([r.choice(LEMS), r.choice(LEMS), "*" + r.choice("oxgs"), r.choice("fdbFix") + "*"])
    elif r.random() < .2: a["trgsurf"] = r.choice(SPECS)
    if r.random() < .35: a["srcsurf"] = r.choice(["aa", "Aa", "AA", "AA", "*"])
    if r.random() < .25: a["srclem"] = r.choice(["aa", "Aa", "AA", "*"])
    if r.random() < .75: a["select"] = r.choice(["AA", "Aa", "aa", "dix"])
    return ("match", a)
def gen_nodes(r, depth, lo, hi):
    out = []
    for _ in range(r.randint(lo, hi)):
        x = r.random()
        if depth and x < .15: out.append(("or", gen_nodes(r, depth - 1, 1, 3)))
        elif depth and x < .3:
            f = r.choice([0, 0, 1, 1, 2, 3]); out.append(("repeat", f, f + r.choice([0, 1, 2, 3]), gen_nodes(r, depth - 1, 1, 2)))
        else: out.append(gen_match(r))
    return out
def gen_rules(r):
    rules = []
    for _ in range(r.choice([1, 2, 4, 8, 14])):
        b = gen_nodes(r, 2, 1, 3)
        x = r.random()
        if x < .12: b.insert(0, ("begin",))
        elif x < .25: b.insert(0, ("or", [("begin",), gen_match(r)]))
        elif x < .28: b.append(("begin",))
        rules.append({"w": r.choice([None, None, 0.5, 0.25, 1, 2, 1.5, 3.125, 10, 0.125, 100, 0.1, 1.2]) if r.random() < .95 else r.choice([0, 1000000, 0.0009765625]), "b": b})
    return rules
def to_xml(rules):
    def node(n):
        if n[0] == "match": return "<match%s/>" % "".join(" %s=%s" % (k, quoteattr(v)) for k, v in n[1].items())
        if n[0] == "or": return "<or>%s</or>" % "".join(map(node, n[1]))
        if n[0] == "begin": return "<begin/>"
        return '<repeat from="%d" upto="%d">%s</repeat>' % (n[1], n[2], "".join(map(node, n[3])))
    return '<?xml version="1.0" encoding="UTF-8"?>\n<capitalization><rules>\n%s\n</rules></capitalization>\n' % "\n".join(
        "<rule%s>%s</rule>" % ("" if x["w"] is None else ' weight="%s"' % x["w"], "".join(map(node, x["b"]))) for x in rules)

# ---- matching one word
def spec_re(spec):
    """Each letter of a case description stands for one or more characters."""
    out = []
    for c in spec:
        k = "." if c == "*" else " " if c == " " else "U" if c.isupper() else "L"
        if not out or out[-1] != k: out.append(k)
    return out
def cls(k, c): return k == "." or (k == " " and c == " ") or (k == "U" and c.isupper()) or (k == "L" and not c.isupper())
_re = {}
def compiled(kind, p):
    if (kind, p) in _re: return _re[kind, p]
    if kind == "spec": items = [(k, True) for k in spec_re(p)]
    else: items = [(".", True) if c == "*" else (c, False) for c in p]
    _re[kind, p] = items
    return items
def match_chars(items, s, spec):
    """items = [(class or char, repeat)] against the characters of s."""
    cur = {0}
    for k, rep in items:
        nxt = set()
        for i in cur:
            j = i
            while j < len(s) and (cls(k, s[j]) if (spec or rep) else s[j] == k):
                j += 1; nxt.add(j)
                if not rep: break
        cur = nxt
    return len(s) in cur
def match_tags(pat, tags):
    cur = {0}
    for it in pat.split("."):
        nxt = set()
        if it == "": continue
        for i in cur:
            if it == "*": nxt |= set(range(i, len(tags) + 1))
            elif it == "+": nxt |= set(range(i + 1, len(tags) + 1))
            elif i < len(tags) and (it == "?" or tags[i] == it): nxt.add(i + 1)
        cur = nxt
    return len(tags) in cur
def match_word(a, w):
    """w: dict lemma tags surf srcsurf srclem."""
    if not match_chars(compiled("spec", a.get("srcsurf", "*")), w["srcsurf"], True): return False
    if not match_chars(compiled("spec", a.get("srclem", "*")), w["srclem"], True): return False
    if a.get("lemma", "*") != "*": ok = match_chars(compiled("lit", a["lemma"]), w["lemma"], False)
    else: ok = match_chars(compiled("spec", a.get("trglem", "*")), w["lemma"], True)
    if not ok or not match_tags(a.get("tags", "*"), w["tags"]): return False
    if a.get("surface", "*") != "*": return match_chars(compiled("lit", a["surface"]), w["surf"], False)
    return match_chars(compiled("spec", a.get("trgsurf", "*")), w["surf"], True)

ORDER = {"AA": 0, "Aa": 1, "aa": 2, "dix": 3, None: 4}
def paths(nodes, words, i, flag, memo):
    """All (end, flag, path) of a node list from word i; flag = at the start of
    the stream with <begin/> still available."""
    if not nodes: return {(i, flag, ())}
    out = set()
    n, rest = nodes[0], nodes[1:]
    for e, f, p in one(n, words, i, flag, memo):
        for e2, f2, p2 in paths(rest, words, e, f, memo): out.add((e2, f2, p + p2))
    return out
def one(n, words, i, flag, memo):
    k = n[0]
    if k == "begin": return {(i, False, ())} if flag else set()
    if k == "match":
        if i >= len(words): return set()
        key = (id(n[1]), i)
        if key not in memo: memo[key] = match_word(n[1], words[i])
        # a word can follow the start only when <begin/> was consumed or ignored
        return {(i + 1, False, (n[1].get("select"),))} if memo[key] else set()
    if k == "or":
        out = set()
        for ch in n[1]: out |= one(ch, words, i, flag, memo)
        return out
    cur = {(i, flag, ())}; out = set()
    if n[1] == 0: out |= cur
    for t in range(1, n[2] + 1):
        nxt = set()
        for e, f, p in cur:
            for e2, f2, p2 in paths(n[3], words, e, f, memo): nxt.add((e2, f2, p + p2))
        cur = nxt
        if t >= n[1]: out |= cur
        if not cur: break
        if len(out) > 4000: raise Big()
    return out
class Big(Exception): pass

def restore(rules, words):
    """Case chosen for every word: list of (AA, Aa, aa, dix) sums; words: dicts,
    only those that are lexical units."""
    sums = [dict(AA=0.0, Aa=0.0, aa=0.0, dix=0.0) for _ in words]
    memo = {}; fired = 0; multi = 0
    per_end = {}
    for k, rule in enumerate(rules):
        for i in range(len(words)):
            for e, f, p in paths(rule["b"], words, i, i == 0, memo):
                if p: per_end.setdefault((e, k), set()).add(p)
    for (e, k) in sorted(per_end, key=lambda x: (x[0], "<%d>" % x[1])):
        ps = per_end[e, k]; fired += 1; multi += len(ps) > 1
        p = min(ps, key=lambda p: [ORDER[x] for x in p])
        w = 1.0 if rules[k]["w"] is None else float(rules[k]["w"])
        for j, sel in enumerate(p):
            if sel: sums[e - len(p) + j][sel] += w
    return sums, fired, multi
def apply(s, surf):
    if s["dix"] >= s["AA"] and s["dix"] >= s["Aa"] and s["dix"] >= s["aa"]: return surf
    if s["aa"] >= s["AA"] and s["aa"] >= s["Aa"]: return icu.lower(surf)
    if s["Aa"] >= s["AA"]: return icu.title(surf)
    return icu.upper(surf)
def near_tie(s):
    v = sorted(s.values())
    return any(0 < b - a < 1e-6 for a, b in zip(v, v[1:]))

# ---- streams
def casing(r, w):
    x = r.random()
    return w if x < .5 else icu.upper(w) if x < .65 else icu.title(w) if x < .85 else icu.lower(w)
PLAIN = "abcdefghijklmnopqrstuvwxyz" + "éñçαж"
def rword(r):
    return casing(r, r.choice(LEMS)) if r.random() < .7 else casing(r, "".join(r.choice(PLAIN) for _ in range(r.randint(1, 5))))
def rtags(r): return [r.choice(TAGS) if r.random() < .9 else "zz%d" % r.randint(0, 3) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5]))]
def blank(r):
    x = r.random()
    if x < .6: return " "
    if x < .7: return ""
    if x < .85: return r.choice([", ", " [<b>]", "[ x <a> \\] ]", "\n", "\\^\\$ ", "\\[x\\]", "  [\n] \t"])
    return "[%s]" % S.blank(r)
def lu(r, esc=.05):
    lem = rword(r)
    surf = rword(r) if r.random() < .5 else casing(r, lem)
    if r.random() < esc: surf += "\\" + r.choice("[]{}^$\\@<>")
    if r.random() < esc: lem += "\\" + r.choice("[]{}^$\\@")
    return lem, rtags(r), surf
def restore_items(r, n, wb=.6):
    """[(blank, wblank pieces or None, lemma, tags, surf)] and the final blank."""
    out = []
    for _ in range(n):
        pieces = None
        if r.random() < wb:
            pieces = []
            if r.random() < .3: pieces.append("t:b:%d" % r.randint(1, 9))
            if r.random() < .9: pieces.append("c:%s/%s" % (r.choice(["aa", "Aa", "AA"]), r.choice(["aa", "Aa", "AA"])))
            if r.random() < .25: pieces.append("t:i:%d" % r.randint(1, 9))
            if r.random() < .15: pieces.append("c:%s/%s" % (r.choice(["aa", "Aa", "AA"]), r.choice(["aa", "Aa", "AA"])))
            if not pieces: pieces = None
        lem, tags, surf = lu(r)
        out.append((blank(r) if out or r.random() < .3 else "", pieces, lem, tags, surf))
    return out, r.choice(["", "\n", " ", "[</p>]\n", ".[]\n"])
def restore_text(items, tail, plain=None):
    s = []
    for b, pieces, lem, tags, surf in items:
        s.append(b + ("[[%s]]" % "; ".join(pieces) if pieces else "") + "^%s%s/%s$" % (lem, "".join("<%s>" % t for t in tags), surf))
    return "".join(s) + tail
def restore_stream(r): return restore_text(*restore_items(r, r.choice([0, 1, 3, 8])))
def unit_words(items):
    ws = []
    for b, pieces, lem, tags, surf in items:
        c = next((p[2:] for p in pieces or () if p.startswith("c:")), "aa/aa")
        ws.append({"lemma": S.unesc(lem), "tags": tags, "surf": S.unesc(surf), "srcsurf": c.split("/")[0], "srclem": c.split("/")[1]})
    return ws
def restore_expected(rules, items, tail, keep):
    sums, fired, multi = restore(rules, unit_words(items))
    out = []; ties = 0
    for (b, pieces, lem, tags, surf), s in zip(items, sums):
        ties += near_tie(s)
        p = pieces if keep or not pieces else [x for x in pieces if not x.startswith("c:")]
        w = apply(s, surf)
        out.append(b + ("[[%s]]%s[[/]]" % ("; ".join(p), w) if p else w))
    return "".join(out) + tail, fired, multi, ties

def extract_stream(r, n=None):
    out = []
    for _ in range(n if n is not None else r.choice([0, 1, 3, 8])):
        out.append(blank(r))
        if r.random() < .3: out.append("[[%s]]" % "; ".join(S.wblank(r) for _ in range(r.choice([1, 1, 2]))))
        out.append("^%s$" % extract_unit(r))
    out.append(r.choice(["", "\n", " ", "[</p>]\n"]))
    return "".join(out)
def extract_unit(r):
    lem, tags, surf = lu(r, .1)
    if r.random() < .08: surf = r.choice(["", "\\/", "a\\/b", "1", "A1", "."])
    t = lambda: "".join("<%s>" % x for x in rtags(r))
    x = r.random()
    if x < .07: return surf or "x"
    if x < .15: rd = "*" + surf
    elif x < .3: rd = lem + t() + "<n>+" + rword(r) + t() + r.choice(["", "# " + rword(r)])
    else: rd = lem + "".join("<%s>" % y for y in tags)
    return surf + "/" + "/".join([rd] + [rword(r) + t() for _ in range(r.choice([0, 0, 0, 1, 3]))])
