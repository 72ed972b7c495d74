"""Starts and observes instrumented pogocache servers in scratch directories."""
import os, re, time, socket, mmap, subprocess, signal, threading, atexit, resource
from common import *
import build

resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
try:
    _s, _h = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (_h, _h))
except Exception:
    pass

SEC = 1000000000
BOOT0 = 1000000 * SEC            # virtual clocks start here
REAL0 = 1700000000 * SEC
CTLSZ = (64 + 4096) * 8
FIELD = {"magic": 0, "clockmode": 1, "boot": 2, "real": 3, "armed": 4, "fkind": 5, "findex": 6, "faction": 7,
         "ferrno": 8, "fhit": 9, "nany": 10, "writedelay": 21, "threaddelay": 22, "threadfail": 23,
         "allocreq": 24, "allocack": 25, "allocbytes": 26, "escapes": 27, "nthreads": 28, "loglen": 29,
         "clockreads": 30, "jitter": 31, "jitters": 32, "threadskip": 33,
         "sockdelay": 34, "sockshort": 35, "sockagain": 36, "readshort": 37, "sockevents": 38,
         "nodelay": 39, "nodelayoff": 40, "keepalive": 41, "keepaliveoff": 42, "quickack": 43, "quickackoff": 44, "reuseport": 45, "backlog": 47, "evmax": 48, "listentcp": 49, "listenunix": 50, "fakerss": 51, "wjumpat": 52, "wjumpns": 53, "wjumps": 54, "preempt": 55, "preempts": 56}
K_OPEN, K_WRITE, K_FSYNC, K_RENAME, K_UNLINK, K_CLOSE, K_READ = 1, 2, 3, 4, 5, 6, 7
A_ERRNO, A_SHORT, A_KILL, A_KILLPART, A_STICKY, A_ZERO = 1, 2, 3, 4, 5, 6

class Ctl:
    def __init__(self, path):
        with open(path, "wb") as f:
            f.truncate(CTLSZ)
        os.chmod(path, 0o666)
        self.f = open(path, "r+b")
        self.mm = mmap.mmap(self.f.fileno(), CTLSZ)
        self.v = memoryview(self.mm).cast("q")
    def __getattr__(self, n):
        if n in FIELD:
            return self.v[FIELD[n]]
        raise AttributeError(n)
    def set(self, **kw):
        for k, x in kw.items():
            self.v[FIELD[k]] = x
    def nkind(self, k):
        return self.v[11 + k]
    def log(self):
        return [(self.v[64 + i] >> 40, self.v[64 + i] & ((1 << 40) - 1)) for i in range(min(self.loglen, 4096))]
    def clear_faults(self):
        self.set(armed=0, fkind=0, findex=0, faction=0, ferrno=0, fhit=0, nany=0, loglen=0)
        for i in range(10):
            self.v[11 + i] = 0
    def close(self):
        try:
            self.v.release(); self.mm.close(); self.f.close()
        except Exception:
            pass

_live = set()
_live_lock = threading.Lock()
@atexit.register
def _killall():
    for p in list(_live):
        try:
            p.kill()
        except Exception:
            pass

_user_ok = {}
def _can_user(exe):
    """Can nobody execute the server and use /tmp?"""
    if exe not in _user_ok:
        ok = False
        if os.getuid() == 0:
            try:
                d = scratch("pgu")
                ok = subprocess.run([exe, "--version"], user=65534, group=65534, extra_groups=[], cwd=d,
                                    env={"PGSHIM_ROOT": d, "ASAN_OPTIONS": "detect_leaks=0"},
                                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30).returncode == 0
                drop_scratch(d)
            except Exception:
                ok = False
        _user_ok[exe] = ok
    return _user_ok[exe]

ASAN = ("exitcode=99:handle_abort=1:abort_on_error=0:quarantine_size_mb=64:allocator_may_return_null=1:"
        "detect_stack_use_after_return=0:malloc_context_size=12:detect_leaks=%d")
TSAN = "exitcode=66:halt_on_error=0:history_size=4:second_deadlock_stack=1:report_thread_leaks=0:die_after_fork=0"

def free_port():
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p

class StartFailed(Exception):
    def __init__(self, rc, out):
        super().__init__(f"server did not start (exit {rc}): {out[-800:]}")
        self.rc, self.out = rc, out

class Server:
    def __init__(self, args=(), san="asan", tcp=False, virtual=False, dir=None, unix=True, leaks=False,
                 threads=2, shards=64, defaults=True, wait=True, env=None, ready_timeout=90, tag="", nofile=None):
        self.exe = build.server(san)
        self.san = san
        self.own = dir is None
        self.dir = dir or scratch("pgs")
        self.n = len([f for f in os.listdir(self.dir) if f.startswith("log")])
        self.sock = os.path.join(self.dir, f"s{self.n}.sock") if unix else None
        self.logpath = os.path.join(self.dir, f"log{self.n}")
        self.ctl = Ctl(os.path.join(self.dir, f"ctl{self.n}"))
        if virtual:
            b, w = (BOOT0, REAL0) if virtual is True else virtual
            self.ctl.set(clockmode=1, boot=b, real=w)
        self.tcp = free_port() if tcp is True else tcp
        a = [self.exe]
        if defaults:
            a += ["--threads", str(threads), "--shards", str(shards)]
        a += ["-h", "127.0.0.1", "-p", str(self.tcp or 0)]
        if unix:
            a += ["-s", self.sock]
        a += [str(x) for x in args]
        self.argv = a
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.dir, "PGSHIM_ROOT": self.dir,
             "PGSHIM": os.path.join(self.dir, f"ctl{self.n}"),
             "ASAN_OPTIONS": ASAN % (1 if leaks else 0), "UBSAN_OPTIONS": "print_stacktrace=1",
             "TSAN_OPTIONS": TSAN, "MSAN_OPTIONS": "exitcode=98:handle_abort=1:allocator_may_return_null=1", "LSAN_OPTIONS": "exitcode=99"}
        e.update(env or {})
        self.logf = open(self.logpath, "wb")
        kw = {}
        if _can_user(self.exe):
            kw = dict(user=65534, group=65534, extra_groups=[])
        if nofile: kw["preexec_fn"] = lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        self.p = subprocess.Popen(a, stdin=subprocess.DEVNULL, stdout=self.logf, stderr=subprocess.STDOUT, cwd=self.dir,
                                  env=e, **kw)
        self.logf.close()
        with _live_lock:
            _live.add(self.p)
        self.pid = self.p.pid
        self.allow_escape = False
        self.stopped = False
        self.expected_exit = False
        if wait:
            self.wait_ready(ready_timeout)

    def wait_ready(self, timeout=90):
        t0 = time.time()
        while True:
            out = self.log()
            if b"Ready to accept connections" in out:
                return
            rc = self.p.poll()
            if rc is not None:
                self.check_log()
                raise StartFailed(rc, self.log().decode("latin1"))
            if time.time() - t0 > timeout:
                raise HarnessError("server not ready: " + out.decode("latin1")[-500:])
            time.sleep(0.01)

    def log(self):
        with open(self.logpath, "rb") as f:
            return f.read()

    def check_log(self):
        """Raises a Violation when a sanitizer or assertion report was printed."""
        out = self.log()
        for pat in SAN_PATTERNS:
            i = out.find(pat)
            if i >= 0:
                rep = out[max(0, i - 200):i + 6000].decode("latin1")
                raise Violation(san_key(rep), "report from the server: " + rep[:3000], {"argv": self.argv, "report": rep})

    def alive(self):
        return self.p.poll() is None

    def idle(self, limit=5):
        """Waits until every thread sleeps: what the answered requests did is published then."""
        t0, calm = time.time(), 0
        d = f"/proc/{self.p.pid}/task"
        while time.time() - t0 < limit:
            try:
                st = []
                for t in os.listdir(d):
                    with open(f"{d}/{t}/stat") as f: st.append(f.read().rsplit(")", 1)[1].split()[0])
            except (FileNotFoundError, ProcessLookupError, IndexError):
                if not self.alive(): return
                continue
            calm = calm + 1 if all(x == "S" for x in st) else 0
            if calm == 2: return
            if calm: time.sleep(.001)

    def check(self):
        self.check_log()
        rc = self.p.poll()
        if rc is not None and not self.expected_exit:
            time.sleep(0.05)
            self.check_log()
            raise Violation(f"died:{rc}", f"the server ended by itself (exit {rc}): {self.log().decode('latin1')[-1500:]}",
                            {"argv": self.argv})

    def signal(self, sig):
        self.expected_exit = True
        try:
            self.p.send_signal(sig)
        except ProcessLookupError:
            pass

    def wait(self, timeout=60):
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None
        with _live_lock:
            _live.discard(self.p)
        return rc

    def kill(self):
        self.expected_exit = True
        try:
            self.p.kill()
        except Exception:
            pass
        self.p.wait()
        with _live_lock:
            _live.discard(self.p)

    def stop(self, graceful=False, check=True):
        """Ends the server; check looks at the log and (graceful) the exit status."""
        if self.stopped:
            return None
        if check:
            self.check()
        rc = None
        if graceful and self.alive():
            self.signal(signal.SIGTERM)
            rc = self.wait(60)
            if rc is None:
                self.kill()
                raise Violation("noexit", "the server did not exit within 60 s of SIGTERM: "
                                + self.log().decode("latin1")[-800:], {"argv": self.argv})
        else:
            self.kill()
        if check:
            self.check_log()
            if self.ctl.escapes and not self.allow_escape:
                raise Violation("escape", "the server tried to write outside its directory", {"argv": self.argv})
        self.cleanup()
        self.stopped = True
        return rc

    def cleanup(self):
        self.kill()
        if self.own:
            drop_scratch(self.dir)

    def __enter__(self):
        return self
    def __exit__(self, t, v, tb):
        try:
            if t is None:
                self.stop()
            elif not issubclass(t, Violation):
                # a client that fails because the server died must report the death
                self.check()
        finally:
            self.cleanup()

    # -- observation --
    def advance(self, ns):
        self.ctl.set(boot=self.ctl.boot + ns, real=self.ctl.real + ns)
    def nfds(self):
        return len(os.listdir(f"/proc/{self.pid}/fd"))
    def threads_now(self):
        return len(os.listdir(f"/proc/{self.pid}/task"))
    def cpu(self):
        with open(f"/proc/{self.pid}/stat") as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
    def allocbytes(self):
        r = self.ctl.allocreq + 1
        self.ctl.set(allocreq=r)
        t0 = time.time()
        while self.ctl.allocack != r:
            if time.time() - t0 > 20:
                self.check()
                raise HarnessError("allocator poll unanswered")
            time.sleep(0.002)
        return self.ctl.allocbytes

    def connect(self, tcp=None, timeout=30):
        if self.sock and not tcp:
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(timeout)
            s.connect(self.sock)
        else:
            s = socket.create_connection(("127.0.0.1", self.tcp), timeout=timeout)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s
