"""Shared machinery of the checks: verdicts, known findings, evidence, parallel jobs."""
import json, os, re, sys, time, subprocess, threading, tempfile, shutil, atexit, random, hashlib, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
NCPU = max(2, min(8, os.cpu_count() or 2))

def tier(q, t):
    return t if THOROUGH else q

class Violation(Exception):
    """Raised by workload code when an oracle refutes the property."""
    def __init__(self, key, msg, replay=None):
        super().__init__(msg)
        self.key, self.msg, self.replay = key, msg, replay or {}

class HarnessError(Exception):
    pass

class Check:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.done = False
        self.viol = []          # (key, msg, replay)
        self.known = []
        self.evaluations = 0
        self.distinct = set()
        self.distinct_n = 0
        self.samples = []
        self.counters = {}
        self.rule = ""
        self.assumptions = []
        self.inconclusive = []
        kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
        self.findings = [f for f in kf.get("findings", []) if f["property"] == pid]

    # -- bookkeeping (thread-safe) --
    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n
    def maxof(self, name, n):
        with self.lock:
            self.counters[name] = max(self.counters.get(name, 0), n)
    def case(self, key=None, n=1):
        """One evaluated case; key identifies it when it is non-trivial."""
        with self.lock:
            self.evaluations += n
            if key is not None:
                self.distinct.add(key if isinstance(key, (int, str, tuple)) else repr(key))
    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s if isinstance(s, (str, dict, list)) else repr(s))
    def note_inconclusive(self, why):
        with self.lock:
            self.inconclusive.append(why)
    def violation(self, key, msg, replay=None):
        with self.lock:
            for f in self.findings:
                if re.search(f["match"], key):
                    if f["what"] not in self.known:
                        self.known.append(f["what"])
                    return
            self.viol.append((key, msg, replay or {}))
    def known_note(self, what):
        with self.lock:
            if what not in self.known:
                self.known.append(what)
    @property
    def failed(self):
        return bool(self.viol)

    def finish(self, extra=None):
        cov = dict(self.counters)
        cov.update({"evaluations": self.evaluations,
                    "distinct_nontrivial": len(self.distinct) + self.distinct_n,
                    "rule": self.rule, "samples": self.samples or [repr(x) for x in sorted(self.distinct, key=repr)[::max(1, len(self.distinct) // 10)][:12]] or ["none"]})
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
            cov["inconclusive_count"] = len(self.inconclusive)
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        listed = list(self.findings)
        for f in listed:
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}"
                  + ("" if f["what"] in self.known else " (not hit by this run)"))
        if self.viol:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            seen = set()
            for key, msg, replay in self.viol:
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 10:
                    break
                h = hashlib.sha1(key.encode()).hexdigest()[:10]
                path = os.path.join(ROOT, "replays", f"{self.pid}-{h}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "message": msg, "seed": SEED,
                               "tier": TIER, "replay": replay}, f, indent=1, default=repr)
                print(f"--- {self.pid}: {msg[:1500]}")
                print(f"VIOLATION property={self.pid} replay={path}")
            sys.stdout.flush()
            return 1
        if self.evaluations == 0:
            print(f"{self.pid}: harness observed nothing (inconclusive: {self.inconclusive[:3]})")
            return 2
        print(f"{self.pid}: held on {self.evaluations} cases ({len(self.distinct) + self.distinct_n} distinct non-trivial), "
              f"{round(time.time() - self.t0, 1)} s"
              + (f", {len(self.inconclusive)} inconclusive" if self.inconclusive else ""))
        sys.stdout.flush()
        return 0

_scratch = []
def scratch(prefix="pgv"):
    d = tempfile.mkdtemp(prefix=prefix + "-", dir="/tmp")
    os.chmod(d, 0o777)
    _scratch.append(d)
    return d
def drop_scratch(d):
    if d in _scratch and d.startswith("/tmp/"):
        shutil.rmtree(d, ignore_errors=True)
        _scratch.remove(d)
@atexit.register
def _clean():
    for d in list(_scratch):
        drop_scratch(d)

def _descendants():
    kids = {}
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open(f"/proc/{p}/stat") as f: kids.setdefault(int(f.read().rsplit(")", 1)[1].split()[1]), []).append(int(p))
            except (OSError, IndexError): pass
    out, todo = [], [os.getpid()]
    while todo:
        k = kids.get(todo.pop(), [])
        out += k; todo += k
    return out

def watchdog(ck, grace=75, limit=840):
    """A check that has found a violation does not wait long for its other parts."""
    import signal
    def watch():
        first = None
        while True:
            time.sleep(1)
            if ck.failed and first is None: first = time.time()
            over = TIER == "quick" and time.time() - ck.t0 > limit
            if over or (first and time.time() - first > grace):
                if ck.done: return
                with ck.lock: ck.done = True
                rc = 2
                for _ in range(20 if ck.failed else 0):
                    try: rc = ck.finish(); break
                    except RuntimeError: time.sleep(.1)     # a container changed while it was written down
                if rc == 2: print(f"{ck.pid}: not finished after {limit} s")
                sys.stdout.flush()
                for p in _descendants():
                    try: os.kill(p, signal.SIGKILL)
                    except OSError: pass
                _clean()
                os._exit(rc)
    threading.Thread(target=watch, daemon=True).start()

def parallel(jobs, workers=NCPU, ck=None):
    """Runs the callables; a Violation goes to ck, any other exception is re-raised."""
    res = []
    err = []
    with ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(lambda j=j: None if ck is not None and ck.failed else j()) for j in jobs]
        for f in as_completed(futs):
            try:
                res.append(f.result())
            except Violation as v:
                if ck is None:
                    raise
                ck.violation(v.key, v.msg, v.replay)
            except Exception as e:
                err.append(e)
    if err and not (ck is not None and ck.failed):
        raise err[0]
    return res

def rng(*parts):
    return random.Random(hashlib.sha256(repr((SEED,) + parts).encode()).digest())

SAN_PATTERNS = [b"ERROR: AddressSanitizer", b"runtime error:", b"ERROR: LeakSanitizer",
                b"WARNING: ThreadSanitizer", b"WARNING: MemorySanitizer", b"AddressSanitizer:DEADLYSIGNAL", b"Assertion `",
                b"ThreadSanitizer: CHECK", b"stack smashing"]
def san_key(text):
    """A stable key for a sanitizer report: kind plus the top frames in the code under test."""
    if isinstance(text, bytes):
        text = text.decode("latin1")
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)|WARNING: (?:Thread|Memory)Sanitizer: (data race|[^\n(]+)|ERROR: LeakSanitizer: ([^\n]+)|(runtime error: [^\n]*)|Assertion `([^']*)", text)
    if m:
        kind = next(g for g in m.groups() if g)
        kind = re.sub(r"0x[0-9a-f]+|\d+", "N", kind)[:80]
    fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([A-Za-z_]\w*)[^\n]*?/src/([\w.]+)", text)
    seen = []
    for f in fr[:12]:
        if f[0] not in seen:
            seen.append(f[0])
    return "san:" + kind + ":" + "/".join(seen[:4])

def _pwork(fn, args, q):
    import traceback
    try:
        _scratch.clear()
        try:
            r = ("ok", fn(*args))
        except Violation as v:
            r = ("viol", v.key, v.msg, v.replay)
        except BaseException:
            r = ("err", traceback.format_exc())
    finally:
        try:
            import server
            server._killall()
        except Exception:
            pass
        for d in list(_scratch):
            drop_scratch(d)
    try:
        q.send(r)
    except Exception as e:
        q.send(("err", f"unsendable result: {e}"))
    q.close()
    os._exit(0)

def pmap(fn, arglist, workers=NCPU, ck=None, timeout=None):
    """fn(*args) in forked processes. Violations go to ck; harness errors are raised unless a violation was found."""
    import multiprocessing as mp
    from multiprocessing.connection import wait as cwait
    ctx = mp.get_context("fork")
    timeout = timeout or tier(240, 3000)
    todo, run, out, errs = list(arglist), {}, [], []
    sys.stdout.flush()
    while todo or run:
        while todo and len(run) < workers:
            a = todo.pop(0)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=_pwork, args=(fn, a, tx))
            p.start(); tx.close()
            run[rx] = (p, a, time.time())
        if ck is not None and ck.failed: todo.clear()
        for rx in cwait(list(run), timeout=1):
            p, a, _ = run.pop(rx)
            try:
                r = rx.recv()
            except EOFError:
                r = ("err", f"worker for {a} died")
            p.join()
            if r[0] == "ok":
                out.append(r[1])
            elif r[0] == "viol":
                if ck is None:
                    raise Violation(*r[1:])
                ck.violation(*r[1:])
            else:
                errs.append(r[1])
        for rx, (p, a, t) in list(run.items()):
            if time.time() - t > timeout:
                p.terminate(); p.join(5); p.kill()
                run.pop(rx)
                errs.append(f"worker for {a} exceeded {timeout} s")
    if errs and not (ck is not None and ck.failed):
        raise HarnessError("\n".join(errs[:2]))
    return out
