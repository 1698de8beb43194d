"""Case operations as lttoolbox's StringUtils defines them (ICU via ctypes for
title case, en_US_POSIX as in the C.UTF-8 locale the programs run in)."""
import ctypes, glob, re
_f = None
def _load():
    global _f
    p = sorted(glob.glob("/usr/lib/*/libicuuc.so.*") + glob.glob("/usr/lib/libicuuc.so.*"))[0]
    v = re.search(r"so\.(\d+)", p).group(1)
    L = ctypes.CDLL(p)
    _f = (getattr(L, "u_strToTitle_" + v), getattr(L, "u_strToUpper_" + v), getattr(L, "u_strToLower_" + v))
_cache = {}
def _call(k, s):
    if (k, s) in _cache: return _cache[k, s]
    if _f is None: _load()
    b = s.encode("utf-16-le", "surrogatepass"); n = len(b) // 2
    src = (ctypes.c_uint16 * (n + 1)).from_buffer_copy(b + b"\0\0")
    dst = (ctypes.c_uint16 * (3 * n + 8))(); e = ctypes.c_int(0)
    if k == 0: m = _f[0](dst, 3 * n + 8, src, n, None, b"en_US_POSIX", ctypes.byref(e))
    else: m = _f[k](dst, 3 * n + 8, src, n, b"en_US_POSIX", ctypes.byref(e))
    r = bytes(dst)[:2 * m].decode("utf-16-le", "surrogatepass")
    if len(_cache) > 200000: _cache.clear()
    _cache[k, s] = r
    return r
def title(s): return _call(0, s)
def upper(s): return _call(1, s)
def lower(s): return _call(2, s)
def getcase(s):
    if not s or not s[0].isupper(): return "aa"
    return "AA" if len(s) > 1 and s[-1].isupper() else "Aa"
def copycase(src, dst):
    if not src: return dst
    c = getcase(src)
    return lower(dst) if c == "aa" else title(dst) if c == "Aa" or len(dst) == 1 else upper(dst)
