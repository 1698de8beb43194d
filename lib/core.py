"""Shared runtime-monitoring harness: sandboxed execution of the sanitizer
builds, parallel seeded workloads, verdicts, known findings, evidence."""
import ctypes, json, os, random, re, resource, select, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
REPO = B.REPO
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SAN_EXIT = 99
FAST = bool(os.environ.get("VERIF_FAST"))     # development: the first violation is enough
ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent",
       "ASAN_OPTIONS": "detect_leaks=0:exitcode=%d:abort_on_error=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:detect_stack_use_after_return=0" % SAN_EXIT,
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=%d:halt_on_error=1" % SAN_EXIT}
CPU_LIMIT = 20
WALL_LIMIT = 120
OUT_LIMIT = 64 << 20
LIMIT_S = 600 if TIER == "quick" else 24 * 3600

class Result:
    __slots__ = ("rc", "out", "err", "hang", "wall", "cmd")
    def __init__(self, rc, out, err, hang, wall, cmd):
        self.rc, self.out, self.err, self.hang, self.wall, self.cmd = rc, out, err, hang, wall, cmd
    @property
    def san(self):
        """Short name of the sanitizer report, crash or hang, or None."""
        e = self.err.decode("utf8", "replace")
        if self.hang: return "hang"
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", e)
        kind = None
        if m: kind = m.group(1)
        elif "runtime error:" in e:
            m = re.search(r"runtime error: ([^\n]*)", e)
            kind = "ub-" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:60].strip().replace(" ", "_")
        elif self.rc < 0: kind = "signal-%d" % -self.rc
        elif self.rc == SAN_EXIT: kind = "sanitizer"
        elif "hard rss limit exhausted" in e or "allocation-size-too-big" in e: kind = "memory-exhausted"
        if kind is None: return None
        return kind + "@" + self.frame()
    def frame(self):
        """First stack frame inside /repo (function name)."""
        e = self.err.decode("utf8", "replace")
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*(?:\s|$)", e):
            if m.group(2).startswith(B.REPO) or "/verif/build/gen/" in m.group(2) or "apertium" in os.path.basename(m.group(2)):
                return re.sub(r"\(.*", "", m.group(1)).strip()[:80]
        m = re.search(r"(/\S*apertium/\S+?):\d+:\d+: runtime error", e)
        return os.path.basename(m.group(1)) if m else "?"

_scratch = None
def scratch():
    """Per-process scratch directory below the check's own one."""
    global _scratch
    if _scratch is None or not _scratch[0] == os.getpid():
        base = os.environ.get("VERIF_SCRATCH")
        if not base:
            base = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
            os.environ["VERIF_SCRATCH"] = base
        d = os.path.join(base, "w%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        _scratch = (os.getpid(), d)
    return _scratch[1]

def _run_once(cmd, data, cpu, wall, env, cwd):
    d = scratch()
    inp = os.path.join(d, ".in"); outp = os.path.join(d, ".out"); errp = os.path.join(d, ".err")
    with open(inp, "wb") as f: f.write(data)
    t = time.time()
    with open(inp, "rb") as fi, open(outp, "wb") as fo, open(errp, "wb") as fe:
        p = subprocess.Popen(cmd, stdin=fi, stdout=fo, stderr=fe, env=env or ENV, cwd=cwd or d, close_fds=True)
        hang = False
        try:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (OUT_LIMIT, OUT_LIMIT))
        except (ProcessLookupError, PermissionError):
            pass
        fd = os.pidfd_open(p.pid)
        try:
            po = select.poll(); po.register(fd, select.POLLIN)
            if not po.poll(wall * 1000):
                hang = "wall"
                p.kill()
        finally:
            os.close(fd)
        rc = p.wait()
    if rc in (-signal.SIGXCPU, -signal.SIGXFSZ): hang = "cpu"
    with open(outp, "rb") as f: out = f.read()
    with open(errp, "rb") as f:  # the beginning and the end: the cause of a crash comes last
        err = f.read(100000); n = os.fstat(f.fileno()).st_size
        if n > 100000: f.seek(max(100000, n - 100000)); err += f.read()
    if b"hard rss limit exhausted" in err: hang = "memory"
    return Result(rc, out, err, hang, time.time() - t, cmd)

def run(cmd, data=b"", cpu=CPU_LIMIT, wall=WALL_LIMIT, env=None, cwd=None):
    """Run to completion with CPU, memory and output watchdogs.  A watchdog
    firing is re-run once; a second firing of the CPU/memory/output watchdog is
    a hang, of the wall clock inconclusive (raises Inconclusive)."""
    if isinstance(data, str): data = data.encode("utf8", "surrogatepass")
    cmd = [str(c) for c in cmd]
    r = _run_once(cmd, data, cpu, wall, env, cwd)
    if r.hang:
        r = _run_once(cmd, data, cpu, wall * 2, env, cwd)
        if r.hang == "wall": raise Inconclusive("wall-clock watchdog: " + " ".join(cmd))
    return r

class Inconclusive(Exception):
    pass

class Case:
    """Collects what one case observed."""
    def __init__(self):
        self.viol = []      # (key, message, {file: bytes})
        self.events = {}
        self.keys = []      # distinct non-trivial keys
        self.evals = 0
        self.samples = []
        self.inconclusive = 0
    def ev(self, name, n=1): self.events[name] = self.events.get(name, 0) + n
    def violation(self, key, msg, **files):
        self.viol.append((key, msg[:4000], {k: (v if isinstance(v, bytes) else str(v).encode("utf8", "surrogatepass")) for k, v in files.items()}))
    def seen(self, key): self.keys.append(hash_key(key))
    def sample(self, s):
        if len(self.samples) < 3: self.samples.append(s)
    def san(self, r, **files):
        """Record a sanitizer report/crash/hang of a run; True if there was one."""
        s = r.san
        if s:
            self.violation("san:" + s, "%s\n%s" % (" ".join(r.cmd), r.err.decode("utf8", "replace")[:3000]), **files)
            return True
        return False

def hash_key(k):
    import hashlib
    return hashlib.blake2b(repr(k).encode("utf8", "surrogatepass"), digest_size=8).digest()

_FN = None
_case_start = None
def _watch(main):
    """The oracle's own resources: a case whose Python side uses too much time
    or memory is inconclusive."""
    page = os.sysconf("SC_PAGE_SIZE"); hit = None
    while True:
        time.sleep(.5)
        t = _case_start
        if t is None or t == hit: continue
        with open("/proc/self/statm") as f: rss = int(f.read().split()[1]) * page
        if rss > 2.5e9 or time.process_time() - t > 100:
            hit = t
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(main), ctypes.py_object(OracleLimit))

def _worker_init():
    threading.Thread(target=_watch, args=(threading.get_ident(),), daemon=True).start()

class OracleLimit(BaseException): pass

def _worker(arg):
    global _case_start
    i, seed = arg
    c = Case()
    rng = random.Random(seed)
    _case_start = time.process_time()
    try:
        try: _FN(rng, i, c)
        finally: _case_start = None
    except OracleLimit:
        c = Case(); c.inconclusive += 1; c.ev("inconclusive"); c.ev("oracle_limit")
    except Inconclusive as e:
        c.inconclusive += 1
        c.ev("inconclusive")
    except Exception:
        return ("error", i, traceback.format_exc(), None)
    return ("ok", i, None, (c.viol, c.events, c.keys, c.evals, c.samples, c.inconclusive))

def _chunk(args):
    return [_worker(a) for a in args]

class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.t0 = time.time()
        self.evals = 0; self.events = {}; self.distinct = set(); self.samples = []
        self.hangs = 0
        self.viol = {}; self.inconclusive = 0; self.min_evals = 1; self.notes = {}
        base = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/tmp")
        os.environ["VERIF_SCRATCH"] = base
        os.chmod(base, 0o755)
        self.base = base
        scratch()
        self.known = [k for k in load_known() if k["property"] == pid and k.get("kind") == "finding"]
        self.known_hit = {}
    def build(self, progs, **kw):
        t = time.time()
        r = B.build(progs, **kw)
        self.notes["build_s"] = round(time.time() - t, 1)
        return r
    def harness(self, name, like, **kw):
        t = time.time()
        r = B.harness(os.path.join(VERIF, "lib", name + ".cc"), like, **kw)
        self.notes["build_s"] = round(self.notes.get("build_s", 0) + time.time() - t, 1)
        return r
    def n(self, quick, thorough=None):
        return quick if TIER == "quick" else (thorough if thorough is not None else quick * 12)
    def run_cases(self, fn, n, label="", procs=8):
        """Run fn(rng, i, case) for i in range(n) over a fork pool."""
        global _FN
        _FN = fn
        seeds = [(i, "%s/%s/%d/%d" % (self.pid, label, SEED, i)) for i in range(n)]
        if FAST and self.viol: return
        if os.environ.get("VERIF_ONE"):     # debugging: one case, in this process
            for i, sd in seeds:
                if os.environ["VERIF_ONE"] == "%s/%d" % (label, i):
                    c = Case(); fn(random.Random(sd), i, c); self.absorb((c.viol, c.events, c.keys, c.evals, c.samples, c.inconclusive), label, i)
            return
        with mp.get_context("fork").Pool(procs, _worker_init) as pool:
            k = max(1, min(8, n // 64)); stop = False
            it = pool.imap_unordered(_chunk, [seeds[j:j + k] for j in range(0, n, k)])
            while not stop:
                try: part = it.next(timeout=max(60, min(400, LIMIT_S + 100 - (time.time() - self.t0))))
                except StopIteration: break
                except mp.TimeoutError:     # a worker was lost
                    self.inconclusive += 1; self.notes["worker_lost"] = True
                    pool.terminate()
                    break
                for st, i, err, res in part:
                    if st == "error":
                        pool.terminate()
                        raise RuntimeError("harness error in case %s/%d:\n%s" % (label, i, err))
                    self.absorb(res, label, i)
                # enough is known, or time is short: stop early
                el = time.time() - self.t0
                if self.hangs >= 6 or (self.viol and (FAST or el > LIMIT_S / 3)) or el > LIMIT_S:
                    self.notes["stopped_early"] = stop = True
                    pool.terminate()
    def one(self, fn, label="probe"):
        c = Case(); fn(random.Random("%s/%s/%d" % (self.pid, label, SEED)), 0, c)
        self.absorb((c.viol, c.events, c.keys, c.evals, c.samples, c.inconclusive), label, 0)
    def absorb(self, res, label, i):
        viol, events, keys, evals, samples, inc = res
        self.evals += evals; self.inconclusive += inc
        for k, v in events.items(): self.events[k] = self.events.get(k, 0) + v
        self.distinct.update(keys)
        for s in samples:
            if len(self.samples) < 8 and (len(self.samples) < 4 or len(json.dumps(s)) < 400): self.samples.append(s)
        for key, msg, files in viol:
            self.hangs += "hang" in key
            for k in self.known:
                if re.fullmatch(k["key"], key, re.S):
                    self.known_hit[k["key"]] = self.known_hit.get(k["key"], 0) + 1
                    break
            else:
                self.viol.setdefault(key, []).append((label, i, msg, files))
    def finish(self):
        pid = self.pid
        ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                           "samples": self.samples or ["(none)"], "events": self.events,
                           "inconclusive": self.inconclusive, "known_findings_hit": self.known_hit, **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        rc = 0
        rd = os.path.join(VERIF, "evidence", "replay", pid)
        shutil.rmtree(rd, ignore_errors=True)
        for n, (key, lst) in enumerate(sorted(self.viol.items(), key=lambda kv: -len(kv[1]))):
            label, i, msg, files = min(lst, key=lambda v: sum(len(x) for x in v[3].values()))
            d = os.path.join(rd, "%02d" % n)
            if n < 12:
                os.makedirs(d, exist_ok=True)
                for k, v in files.items():
                    with open(os.path.join(d, re.sub(r"[^\w.-]", "_", k)), "wb") as f: f.write(v)
                with open(os.path.join(d, "README"), "w") as f:
                    f.write("property %s\nkey %s (%d cases)\ncase %s/%d seed %d tier %s\n\n%s\n" % (pid, key, len(lst), label, i, SEED, TIER, msg))
                print("VIOLATION property=%s replay=%s" % (pid, d))
                print("  key=%s cases=%d\n  %s" % (key, len(lst), msg[:1500].replace("\n", "\n  ")))
            rc = 1
        for k in self.known:
            if k["key"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        shutil.rmtree(self.base, ignore_errors=True)
        print("%s tier=%s seed=%d evaluations=%d distinct=%d inconclusive=%d violations=%d wall=%.1fs build=%.1fs" % (
            pid, TIER, SEED, self.evals, len(self.distinct), self.inconclusive, len(self.viol), time.time() - self.t0, self.notes.get("build_s", 0)))
        if rc == 0 and (self.evals < self.min_evals or len(self.distinct) < 2):
            print("ERROR: observed too little (%d evaluations)" % self.evals); rc = 2
        return rc

def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line: out.append(json.loads(line))
    return out

def main(fn, *a, **kw):
    """Entry of a check: fn(check) -> None.  Any harness failure exits 2."""
    chk = Check(*a, **kw)
    try:
        fn(chk)
        rc = chk.finish()
    except B.BuildError as e:
        print("ERROR: build failed: %s" % e); rc = 2
    except BaseException:
        traceback.print_exc(); rc = 2
    finally:
        shutil.rmtree(chk.base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
