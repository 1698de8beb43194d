import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
import stream as S
def dec(b): return b.decode("utf8", "surrogateescape")
def enc(s): return s.encode("utf8", "surrogateescape")
def diff(a, b, ctx=60):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]: i += 1
    return "first difference at %d:\n expected ...%r\n observed ...%r" % (i, a[max(0, i-ctx):i+ctx], b[max(0, i-ctx):i+ctx])
