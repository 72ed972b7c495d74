"""A slow, stalled or hostile client next to well-behaved ones (C29)."""
import threading
from session import *
from kv import *
from server import *
from persist import rconf, bad

LIMIT = 2.5        # s; a probe request slower than this is looked at again
HARD = 25          # s without an answer

class Probe:
    """A well-behaved client: one request at a time, each answer checked and timed."""
    def __init__(self, srv, i, proto):
        self.srv, self.i, self.proto, self.n, self.worst, self.tcp, self.flushes = srv, i, proto, 0, 0.0, srv.tcp and i % 2, False
        self.c = None if proto == "http" else self.open()
    def open(self):
        c = {"mc": Mc, "pg": Pg, "http": Conn}.get(self.proto, Resp)(self.srv.connect(tcp=bool(self.tcp)), HARD)
        try:
            if self.proto == "pg": c.start()
        except (Timeout, Closed, Bad, OSError) as e:
            self.srv.check()
            raise Stall(f"a new Postgres client was not welcomed: {e!r}", HARD)
        return c
    def req(self, val):
        k = b"probe:%d" % self.i
        gone = self.flushes
        if self.proto == "resp":
            self.c.send(enc_resp([b"SET", k, val]) + enc_resp([b"GET", k]))
            return (self.c.read(resp), self.c.read(resp)) in ((("+", b"OK"), ("$", val)), (("+", b"OK"), NULL if gone else 0))
        if self.proto == "mc":
            self.c.send(b"set %s 0 0 %d\r\n%s\r\nget %s\r\n" % (k, len(val), val, k))
            a, b = self.c.read(memcache), self.c.read(memcache)
            return a == ("line", b"STORED") and b[0] == "values" and [x[2] for x in b[1]] in ([val], [] if gone else 0)
        if self.proto == "pg":
            self.c.send(pg_q(b"SET " + k + b" " + val)); self.c.until_ready()
            self.c.send(pg_q(b"GET " + k))
            return [m[1] for m in self.c.until_ready() if m[0] == "D"] in ([[val]], [] if gone else 0)
        h = self.open()
        try:
            h.send(http_put(k, val)); h.read(http)
        finally: h.close()
        h = self.open()
        try:
            h.send(http_get(k)); r = h.read(http)
            return r[3] == val or gone and r[1] == 404
        finally: h.close()
    def go(self, n, why):
        for _ in range(n):
            self.n += 1
            v = b"%d-%d" % (self.i, self.n)
            t = time.monotonic()
            try: ok = self.req(v)
            except (Timeout, Closed, Bad, OSError) as e:
                self.srv.check()
                raise Stall(f"a request of another client ({self.proto}, connection {self.i}, request {self.n}) failed next to a client that {why}: {e!r}", time.monotonic() - t)
            if not ok: bad("stall:wrong", f"wrong answer for a {self.proto} client next to a client that {why}", argv=self.srv.argv)
            self.worst = max(self.worst, time.monotonic() - t)

class Stall(Exception):
    def __init__(self, msg, t): super().__init__(msg); self.msg, self.t = msg, t

class Attack:
    """A client that misbehaves until stop() is called. stalled() says whether it is still waiting for the server."""
    why = ""
    flushes = False        # entries may vanish
    heavy = False          # keeps the server busy by legitimate work
    writes_off = False
    def __init__(self, srv, r):
        self.srv, self.r, self.conns, self.threads, self.end = srv, r, [], [], threading.Event()
        self.start()
    def new(self, tcp=None):
        s = self.srv.connect(tcp=self.srv.tcp and self.r.random() < .5 if tcp is None else tcp)
        s.settimeout(HARD)
        self.conns.append(s)
        return s
    def flood(self, s, data, secs=.5):
        """Sends until the server does not take any more; the number of bytes accepted."""
        s.setblocking(False)
        t0, n, last = time.time(), 0, time.time()
        try:
            while time.time() - t0 < secs and time.time() - last < .15:
                try:
                    k = s.send(data[n % len(data):] if n % len(data) else data)
                    n += k; last = time.time()
                except BlockingIOError: time.sleep(.005)
        except OSError: pass
        return n
    def bg(self, f):
        def run():
            try: f()
            except (OSError, Closed, Timeout, Bad, ValueError): pass
        t = threading.Thread(target=run, daemon=True); t.start(); self.threads.append(t)
    def stalled(self): return True
    def stop(self):
        self.end.set()
        self.release()
        for s in self.conns:
            try: s.close()
            except OSError: pass
        for t in self.threads: t.join(30)
    def release(self): pass

def requests(r):
    """Requests of all protocols whose beginning is not yet a request."""
    v = b"v" * r.choice([10, 1000, 100000])
    return r.choice([
        enc_resp([b"SET", b"x", v]), enc_resp([b"MSET"] + [b"%d" % i for i in range(2000)]), b"SET x " + v + b"\r\n", b"set x 0 0 %d\r\n%s\r\n" % (len(v), v), b"get " + b" ".join(b"k%d" % i for i in range(60)) + b"\r\n",
        http_put(b"x", v), b"GET /x HTTP/1.1\r\n" + b"A: b\r\n" * 100 + b"\r\n", pg_startup(user="u", database="d"), pg_startup(user="u") + pg_q(b"SET x '" + v + b"'"),
        pg_startup(user="u") + pg_parse(b"SET x $1") + pg_bind([v]) + pg_exec() + PG_SYNC])

class Partial(Attack):
    why = "sent the beginning of a request and nothing more"
    def start(self):
        for _ in range(self.r.choice([1, 4, 20])):
            b = requests(self.r); s = self.new()
            s.sendall(b[:self.r.randrange(1, len(b))] if self.r.random() < .9 else b[:-1])
class Drip(Attack):
    why = "sends its request one byte at a time"
    def start(self):
        for _ in range(self.r.choice([1, 4])):
            b, s, d = requests(self.r), self.new(), self.r.choice([.001, .01, .05])
            def go(b=b, s=s, d=d):
                pos = self.r.choice([0, len(b) // 2]); s.sendall(b[:pos])
                while not self.end.is_set() and pos < len(b) - 1:
                    s.sendall(b[pos:pos + 1]); pos += 1; time.sleep(d)
            self.bg(go)
class Huge(Attack):
    why = "announced a huge request and sent only some of it"
    def start(self):
        r = self.r
        for _ in range(r.choice([1, 3])):
            s = self.new()
            b = r.choice([b"*3\r\n$3\r\nSET\r\n$1\r\nx\r\n$1000000000\r\n", b"*1000000\r\n" + b"$1\r\na\r\n" * 30000, b"set x 0 0 1000000000\r\n", b"PUT /x HTTP/1.1\r\nContent-Length: 1000000000\r\n\r\n",
                          b"SET x ", b"get ", pg_startup(user="u") + b"Q" + struct.pack(">i", 1000000000), b"GET /x HTTP/1.1\r\n", pg_startup(user="u") + b"Q" + struct.pack(">i", 9000000) + b"SET x '"])
            fill = r.choice([b"", b"z" * 300000, b"z" * 5000000])
            self.bg(lambda s=s, b=b, fill=fill: s.sendall(b + fill))
        time.sleep(.05)
class NoRead(Attack):
    why = "does not read its replies"
    def start(self):
        r, srv = self.r, self.srv
        c = Resp(srv.connect()); big = r.choice([70000, 1000000, 8000000])
        c.cmd(b"SET", b"big", b"B" * big); c.close()
        for _ in range(r.choice([1, 3, 10])):
            s = self.new()
            n = max(1, 30000000 // big)
            w = r.randrange(7)
            if w == 0: b = enc_resp([b"GET", b"big"]) * min(n, 300)
            elif w == 1: b = enc_resp([b"PING"]) * 1000
            elif w == 2: b = b"get big\r\n" * min(n, 300)
            elif w == 3: b = pg_startup(user="u") + pg_q(b"GET big") * min(n, 300)
            elif w == 4: b = http_get(b"big")
            elif w == 5: b = enc_resp([b"MGET"] + [b"big"] * min(n, 50))
            else: b = enc_resp([b"KEYS", b"*"]) + enc_resp([b"STATS"]) * 500
            if w in (1, 6): self.flood(s, b, .3)
            else: s.sendall(b)             # all of the replies are made before the first is refused
class NoReadWork(Attack):
    why = "does not read its replies and asks for long work"
    def start(self):
        r = self.r
        c = Resp(self.srv.connect()); c.cmd(b"SET", b"big", b"B" * 3000000); c.close()
        for _ in range(r.choice([1, 4, 12])):
            s = self.new()
            w = r.choice([[b"KEYS", b"*"], [b"SWEEP"], [b"PURGE"], [b"SAVE"], [b"DBSIZE"], [b"DEBUG", b"DETACH"], [b"MONITOR"]])
            self.bg(lambda s=s, w=w: s.sendall(enc_resp([b"GET", b"big"]) * r.choice([1, 5]) + enc_resp(w) * r.choice([1, 10]) + enc_resp([b"GET", b"big"]) * 3))
        time.sleep(.05)
class SlowReader(Attack):
    why = "reads its replies a few bytes at a time"
    def start(self):
        c = Resp(self.srv.connect()); c.cmd(b"SET", b"big", b"B" * 3000000); c.close()
        for _ in range(self.r.choice([1, 5])):
            s = self.new()
            s.sendall(enc_resp([b"GET", b"big"]) * 5)
            def go(s=s):
                while not self.end.is_set():
                    if not s.recv(self.r.choice([1, 100, 5000])): return
                    time.sleep(.002)
            self.bg(go)
class Monitors(Attack):
    why = "started MONITOR and does not read its stream"
    heavy = True
    def start(self):
        for _ in range(self.r.choice([1, 5])):
            s = self.new(); s.sendall(enc_resp([b"MONITOR"]))
            if s.recv(5) != b"+OK\r\n": raise HarnessError("MONITOR")
        def traffic():
            c = Resp(self.srv.connect(), HARD)
            while not self.end.is_set(): c.cmd(b"SET", b"m", b"M" * 200000)
            c.close()
        self.bg(traffic)
class SlowDisk(Attack):
    why = "saves to a disk that does not respond"
    def start(self):
        r = self.r
        c = Resp(self.srv.connect())
        for i in range(200): c.cmd(b"SET", b"d%d" % i, b"D" * r.choice([10, 1000]))
        c.close()
        self.srv.ctl.set(writedelay=30000000)
        for _ in range(r.choice([1, 2, 6])):
            s = self.new()
            s.sendall(enc_resp([b"SAVE", b"TO", os.path.join(self.srv.dir, "slow").encode()] + ([b"FAST"] if r.random() < .5 else [])))
        self.first = self.conns[0]
        time.sleep(.1)
    def stalled(self):
        self.first.setblocking(False)
        try: self.first.recv(1); return False
        except BlockingIOError: return True
    def release(self): self.srv.ctl.set(writedelay=0)
class SlowLoad(Attack):
    why = "loads from a pipe in which nothing arrives"
    def start(self):
        p = os.path.join(self.srv.dir, "fifo%d" % self.r.randrange(10 ** 9))
        os.mkfifo(p); os.chmod(p, 0o666); self.p = p
        self.fd = os.open(p, os.O_RDWR)
        for _ in range(self.r.choice([1, 4])):
            s = self.new()
            s.sendall(enc_resp([b"LOAD", b"FROM", p.encode()] + ([b"FAST"] if self.r.random() < .5 else [])))
        time.sleep(.1)
    def release(self):
        os.close(self.fd)
        try: os.close(os.open(self.p, os.O_WRONLY | os.O_NONBLOCK))
        except OSError: pass
class BgStorm(Attack):
    why = "runs long commands all the time"
    heavy = True
    def start(self):
        c = Resp(self.srv.connect()); c.cmd(b"DEBUG", b"POPULATE", b"20000", b"pop", b"10"); c.close()
        for i in range(self.r.choice([2, 6])):
            s = self.new(); x = Resp(s, HARD)
            w = self.r.choice([[b"KEYS", b"*1*"], [b"SWEEP"], [b"SWEEP", b"FAST"], [b"PURGE"], [b"SAVE", b"TO", os.path.join(self.srv.dir, "st%d" % i).encode()], [b"DBSIZE"], [b"SCAN", b"0", b"COUNT", b"100000"], [b"KEYS", b"p*"], [b"STATS"], [b"SWEEP", b"ASYNC"]])
            def go(x=x, w=w):
                while not self.end.is_set(): x.cmd(*w)
            self.bg(go)
class AsyncStorm(Attack):
    why = "orders work in the background faster than it can be done"
    heavy = True
    def start(self):
        c = Resp(self.srv.connect()); c.cmd(b"DEBUG", b"POPULATE", b"30000", b"pop", b"10"); c.close()
        w = self.r.choice([[b"SWEEP", b"ASYNC"], [b"SWEEP", b"ASYNC", b"FAST"], [b"PURGE", b"ASYNC"], [b"FLUSHALL", b"ASYNC"]])
        self.flushes = w[0] == b"FLUSHALL"
        b = enc_resp(w) * 50
        for _ in range(self.r.choice([1, 3])):
            x = Resp(self.new(), HARD)
            def go(x=x):
                while not self.end.is_set():
                    x.send(b)
                    for _ in range(50): x.read(resp)
            self.bg(go)
        time.sleep(2)
class Hammer(Attack):
    why = "writes one key without a pause"
    heavy = True
    def start(self):
        for _ in range(self.r.choice([1, 4, 8])):
            x = Resp(self.new(), HARD)
            b = self.r.choice([enc_resp([b"SET", b"probe:h", b"x" * 500]) * 200, enc_resp([b"INCR", b"hot"]) * 300, b"".join(enc_resp([b"APPEND", b"app", b"z"]) + enc_resp([b"DEL", b"app"]) for _ in range(100))])
            n = b.count(b"*")
            n = b.count(b"\r\nSET\r\n") + b.count(b"\r\nINCR\r\n") + b.count(b"\r\nAPPEND\r\n") + b.count(b"\r\nDEL\r\n")
            def go(x=x, b=b, n=n):
                while not self.end.is_set():
                    x.send(b)
                    for _ in range(n): x.read(resp)
            self.bg(go)
class Churn(Attack):
    why = "opens and closes connections all the time"
    heavy = True
    def start(self):
        def go(seed):
            r = rng("churn", seed)
            while not self.end.is_set():
                try:
                    s = self.srv.connect(tcp=bool(self.srv.tcp) and r.random() < .5)
                    s.settimeout(5)
                    w = r.randrange(5)
                    if w == 0: s.sendall(requests(r)[:30])
                    elif w == 1: s.sendall(enc_resp([b"GET", b"big"]) * 3); s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    elif w == 2: s.sendall(enc_resp([b"KEYS", b"*"])); s.shutdown(socket.SHUT_WR)
                    elif w == 3: s.sendall(b"\x00\xff garbage\r\n"); s.recv(100)
                    s.close()
                except OSError: time.sleep(.01)
        for i in range(3): self.bg(lambda i=i: go(self.r.randrange(10 ** 9)))
class HalfClosed(Attack):
    why = "closed its sending side and does not read"
    def start(self):
        c = Resp(self.srv.connect()); c.cmd(b"SET", b"big", b"B" * 2000000); c.close()
        for _ in range(self.r.choice([1, 8])):
            s = self.new(); s.sendall(enc_resp([b"GET", b"big"]) * 4 + self.r.choice([b"", b"*2\r\n$3", enc_resp([b"KEYS", b"*"])])); s.shutdown(socket.SHUT_WR)
class Delayed(Attack):
    why = "ordered many flushes for the distant future"
    def start(self):
        c = Resp(self.new(), HARD)
        for _ in range(60):
            if c.cmd(b"FLUSHALL", b"DELAY", b"100000") != ("+", b"OK"): raise HarnessError("FLUSHALL DELAY")
class FdLimit(Attack):
    why = "opened connections until the process could not take any more"
    writes_off = True
    def start(self):
        c = Resp(self.new(), HARD); c.cmd(b"PING")
        for _ in range(250): self.new().sendall(b"PI")
        t0 = time.time()
        while self.srv.nfds() < FDS:
            if time.time() - t0 > 10: raise HarnessError(f"{self.srv.nfds()} descriptors in use")
            time.sleep(.02)
        # commands that need a descriptor fail, the others work
        for a in ([b"SAVE", b"TO", os.path.join(self.srv.dir, "nofd").encode()], [b"LOAD", b"FROM", os.path.join(self.srv.dir, "nofd").encode()], [b"STATS"], [b"PURGE"], [b"SWEEP"], [b"SAVE", b"TO", os.path.join(self.srv.dir, "nofd").encode(), b"FAST"]):
            try: x = c.cmd(*a)
            except (Timeout, Closed, Bad) as e:
                self.srv.check(); raise Stall(f"{a[0].decode()} failed next to a client that {self.why}: {e!r}", HARD)
            if (x[0] == "-") != (a[0] in (b"SAVE", b"LOAD")): bad("stall:fd", f"{a[0].decode()} answered {x!r:.200} without free descriptors", argv=self.srv.argv)
FDS = 150
class Quadratic(Attack):
    why = "sends a request of many arguments in small pieces"
    heavy = True
    def start(self):
        s = self.new()
        n = self.r.choice([2000, 20000])
        b = b"*%d\r\n" % (n * 2 + 1) + b"$4\r\nMSET\r\n" + b"".join(b"$6\r\n%06d\r\n" % i for i in range(n * 2))
        def go():
            s.sendall(b[:-4000])
            for i in range(len(b) - 4000, len(b) - 1):
                if self.end.is_set(): return
                s.sendall(b[i:i + 1]); time.sleep(.001)
        self.bg(go)

ATTACKS = [Partial, Drip, Huge, NoRead, NoReadWork, SlowReader, Monitors, SlowDisk, SlowLoad, BgStorm, AsyncStorm, Hammer, Churn, HalfClosed, Delayed, FdLimit, Quadratic]

def scenario(kinds, r, o, threads, quiet=False):
    """Attacks of the given kinds together; the worst latency of a probe."""
    a, kw = rconf(r)
    kw["threads"] = threads
    if r.random() < .3: a += ["--queuesize", r.choice(["1", "2", "7"])]
    a += ["--warmup", "no", "--maxconns", "2000"]
    fd = any(k.writes_off for k in kinds)
    with Server(a, tcp=r.random() < .4, nofile=FDS if fd else None, **kw) as srv:
        protos = ["resp", "mc", "pg", "resp"] + ([] if fd else ["http"])
        before = [Probe(srv, i, protos[i % len(protos)]) for i in range(threads * 3 + 1)]
        # the probes work and are spread over the threads before anything goes wrong
        for p in before: p.go(1, "does nothing")
        for p in before: p.worst = 0.0
        att = [k(srv, r) for k in kinds]
        why = "; ".join(x.why for x in att)
        try:
            t0 = time.monotonic()
            probes = list(before)
            if not fd: probes += [Probe(srv, 1000 + i, protos[i % len(protos)]) for i in range(threads * 2)]
            for p in probes: p.flushes = any(x.flushes for x in att)
            for rnd in range(tier(3, 12)):
                for p in probes: p.go(3, why)
            still = all(x.stalled() for x in att)
            if not still and not any(x.heavy for x in att): raise HarnessError(f"the attack ended early: {why}")
            o["stalls"] += 1
            o["requests"] += sum(p.n for p in probes) * 2
            worst = max(p.worst for p in probes)
        finally:
            for x in att: x.stop()
        # the server is sound afterwards
        if any(x.flushes for x in att): time.sleep(.3)
        for p in before: p.go(1, "went away after it " + why)
        for p in probes:
            if p.c: p.c.close()
        o["kinds"].add((tuple(sorted(k.__name__ for k in kinds)), threads))
        o["slowest ms"] = max(o["slowest ms"], int(worst * 1000))
        return worst, why, srv.argv

def stall_job(n, seconds):
    o = {"stalls": 0, "requests": 0, "kinds": set(), "slowest ms": 0, "repeats": 0}
    t0 = time.time(); i = 0
    todo = [(k, t) for k in ATTACKS for t in (1, 2, 4)]
    rr = rng("stall", n)
    mine = [x for j, x in enumerate(todo) if j % 8 == n % 8]
    while time.time() - t0 < seconds or i < len(mine):
        if i < len(mine): kinds, threads = [mine[i][0]], mine[i][1]
        else:
            threads = rr.choice([1, 2, 3, 4])
            kinds = [rr.choice(ATTACKS)] + ([rr.choice(ATTACKS)] if rr.random() < .5 else [])
            if FdLimit in kinds: kinds = [FdLimit]
            kinds = list(dict.fromkeys(kinds))
        i += 1
        slow = 0
        for attempt in range(4):
            r = rng("stall", n, i)                 # the same scenario again
            try:
                worst, why, argv = scenario(kinds, r, o, threads)
                if worst <= LIMIT or (worst <= HARD and any(k.heavy for k in kinds)): break
                msg = f"requests of other clients took up to {worst:.1f} s next to a client that {why}"
            except Stall as e: msg, argv = e.msg, None
            slow += 1; o["repeats"] += 1
            if os.environ.get("SHOW"): print(n, i, threads, msg, flush=True)
            if slow == 3: bad("stall:" + "+".join(sorted(k.__name__ for k in kinds)), f"{msg} ({threads} threads; seen {slow} times)", argv=argv)
    return o
