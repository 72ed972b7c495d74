"""Connection resources: churn, limits, crossing (C24)."""
import threading, struct, signal
from session import *
from kv import *
from server import *
from persist import rconf, bad
from flushjob import open_conn

TAG = re.compile(rb"<(\d+)>")
WAIT = 20

def rst(s):
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    except OSError: pass

def echo_of(proto, t):
    if proto == "resp": return enc_resp([b"ECHO", t])
    if proto == "inline": return enc_inline([b"ECHO", t])
    if proto == "pgq": return pg_q(b"ECHO " + pg_lit(t))
    return None

class Script:
    """One client: opens a connection, does something, and leaves somehow. Replies may only carry its own tag."""
    def __init__(self, srv, r, cid, kind, leave, tcp):
        self.srv, self.r, self.tag, self.id, self.kind, self.leave, self.tcp = srv, r, b"<%d>" % cid, cid, kind, leave, tcp
        self.got, self.cut = b"", False
    def pull(self, n=1 << 16, t=.1):
        self.s.settimeout(t)
        try: d = self.s.recv(n)
        except OSError: return b""
        self.got = self.got[-64:] + d
        for m in TAG.finditer(self.got):
            if int(m.group(1)) != self.id and self.kind != "monitor":
                bad("conn:crossed", f"client {self.id} ({self.kind}) received {self.got[max(0, m.start() - 80):m.end() + 80]!r}, which belongs to client {int(m.group(1))}", argv=self.srv.argv)
        return d
    def put(self, b):
        if self.cut: return        # what follows a message that was not sent in full would become part of it
        self.s.settimeout(.5)
        try: self.s.sendall(b)
        except OSError: self.cut = True
    def run(self):
        try: self.s = self.srv.connect(tcp=self.tcp)
        except OSError as e:
            raise HarnessError(f"connect: {e}")
        try:
            getattr(self, "k_" + self.kind)()
            self.part()
        finally:
            try: self.s.close()
            except OSError: pass
    def part(self):
        r = self.r
        if self.leave == "rst": rst(self.s)
        elif self.leave == "half":
            try: self.s.shutdown(socket.SHUT_WR)
            except OSError: pass
            while self.pull(t=3): pass
        elif self.leave == "drain":
            self.pull(t=.02)
        elif self.leave == "halfrd":
            try: self.s.shutdown(socket.SHUT_RD)
            except OSError: pass
            self.put(enc_resp([b"ECHO", self.tag * 50]) * 3)
    def c(self, *a): return enc_resp([x if isinstance(x, bytes) else str(x).encode() for x in a])
    # -- kinds --
    def k_nothing(self): pass
    def k_partial(self):
        b = self.r.choice([self.c("SET", self.tag, "v" * 300), b"SET a", b"set k%d 0 0 50\r\nabc" % self.id, b"PUT /k%d HTTP/1.1\r\nContent-Length: 100\r\n\r\nxyz" % self.id,    # keys nobody else reads
                           b"*3\r\n$3\r\nSET\r\n$1000000\r\n" + b"x" * 5000, b"GET /k HTTP/1.1\r\nHost", b"\0\0\0\x50\0\3\0\0user", pg_startup()[:20], b"*1000\r\n"])
        self.put(b[:self.r.randrange(1, len(b) + 1)])
    def k_echo(self):
        self.put(b"".join(self.c("ECHO", self.tag) for _ in range(self.r.choice([1, 5, 100]))))
        if self.r.random() < .5: self.pull()
    def k_unread(self):
        self.put(self.c("ECHO", self.tag * 30000) * self.r.choice([2, 10]))
    def k_background(self):
        w = self.r.choice([self.c("KEYS", b"*" + self.tag + b"*"), self.c("FLUSHALL"), self.c("SWEEP"), self.c("PURGE"), self.c("SAVE"), self.c("LOAD"),
                           self.c("SAVE", "TO", "sub/x"), self.c("LOAD", "FROM", "none"), self.c("SAVE", "FAST"), self.c("DEBUG", "DETACH"), self.c("KEYS", "nothing"),
                           self.c("DEBUG", "POPULATE", "200", "pk", "5"), b"flush_all\r\n", self.c("SWEEP", "ASYNC"), self.c("PURGE", "ASYNC"), self.c("FLUSHALL", "ASYNC")])
        pre = b"" if w.islower() else self.c("ECHO", self.tag) * self.r.choice([0, 0, 1, 40])
        post = b"" if w.islower() else self.r.choice([b"", self.c("ECHO", self.tag), self.c("KEYS", self.tag), self.c("QUIT"), self.c("SAVE"), b"*2\r\n$4\r\nECHO\r\n$100\r\nabc"])
        self.put(pre + w + post)
        if self.r.random() < .3: self.pull(t=.05)
    def k_bgflood(self):
        self.put(self.c("ECHO", self.tag * 20000) * 4 + self.c("KEYS", self.tag) + self.c("ECHO", self.tag * 20000) * 4 + self.c("KEYS", self.tag))
    def k_monitor(self):
        self.put(self.c("MONITOR"))
        if self.r.random() < .7: self.pull(t=.1)
        if self.r.random() < .3: self.put(self.c("PING"))
        if self.r.random() < .3: self.put(self.c("GET", "x"))
    def k_pg(self):
        self.put(pg_startup())
        k = self.r.random()
        if k < .2: return
        self.pull()
        for i in range(self.r.choice([1, 3, 40])):
            self.put(pg_parse(b"SET $1 $2", b"s%d" % i) + pg_bind((self.tag, b"v"), b"p%d" % i, b"s%d" % i))
        if k < .6: self.put(pg_exec(b"p0") + PG_SYNC + pg_q(b"ECHO " + pg_lit(self.tag)))
        if k < .3: self.put(pg_parse(b"KEYS $1", b"k") + pg_bind((b"*" + self.tag,), b"", b"k") + pg_exec() + PG_SYNC)
        if k > .8: self.put(PG_X)
        if .45 < k < .6: self.pull()
        if .6 < k < .65: self.put(b"E\xff\xff\xff\xffgarbage")
    def k_pgssl(self):
        self.put(struct.pack(">ii", 8, 80877103))
        if self.r.random() < .5: self.pull()
        if self.r.random() < .5: self.put(pg_startup())
    def k_http(self):
        self.put(self.r.choice([http_get(b"k"), http_put(b"h", b"x" * self.r.choice([0, 10, 70000])), http_del(b"h"), b"BAD /x HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\nConnection: close\r\n\r\n"]))
        if self.r.random() < .5: self.pull()
    def k_mc(self):
        t = b"t%d" % self.id
        self.put(self.r.choice([b"set m 0 0 5\r\nhello\r\nget m\r\n", b"get a b c d\r\n", b"set m 0 0 100000\r\n" + b"z" * 70000, b"quit\r\n", b"bogus\r\n", b"stats\r\n", b"set m 0 0 -1\r\n", b"version\r\nquit\r\n", b"gets m\r\nget m\r\n" * 50]))
        if self.r.random() < .5: self.pull()
    def k_quit(self):
        self.put(self.c("ECHO", self.tag) + self.c("QUIT") + self.r.choice([b"", self.c("ECHO", self.tag), b"*2\r\n$4\r\nEC"]))
        if self.r.random() < .5: self.pull()
    def k_error(self):
        self.put(self.r.choice([b"*1\r\n$x\r\n", b"*-5\r\n", b"*1\r\n$999999999999\r\n", b"*99999999999\r\n", b"\xff\xfe\r\n", b"\0\0\0\0\0\0\0\0", b"SET 'unbalanced\r\n", self.c("NOSUCH"), self.c("GET"), self.c("AUTH", "x", "y")]))
        if self.r.random() < .5: self.pull(t=.05)
    def k_big(self):
        self.put(self.c("SET", "big" + str(self.id % 7), b"y" * 300000) + self.c("ECHO", self.tag))
        if self.r.random() < .5: self.pull()
        self.put(self.c("MGET", *["big%d" % i for i in range(7)] * 3))

KINDS = [n[2:] for n in dir(Script) if n.startswith("k_")]
LEAVE = ["close", "close", "rst", "half", "drain", "halfrd"]

def settled(srv, adm, fds, threads, curr, what):
    """Everything the clients of a round held has been given back."""
    t = time.time()
    while True:
        st = adm.stats()
        n, c, th = srv.nfds(), int(st["curr_connections"]), srv.threads_now()
        if (n, c, th) == (fds, curr, threads): return st
        srv.check()
        if time.time() - t > WAIT:
            if n > fds: bad("conn:fds", f"{n - fds} descriptors are still open {WAIT} s after {what}: {fdlist(srv)}", argv=srv.argv)
            if c != curr: bad("conn:curr", f"curr_connections is {c} with {curr} open, {WAIT} s after {what}", argv=srv.argv)
            if th > threads: bad("conn:threads", f"{th - threads} threads remain {WAIT} s after {what}", argv=srv.argv)
            return st
        time.sleep(.01)

def fdlist(srv):
    o = []
    for f in os.listdir(f"/proc/{srv.pid}/fd"):
        try: o.append(os.readlink(f"/proc/{srv.pid}/fd/{f}"))
        except OSError: pass
    return sorted(o)[:40]

def base(srv, adm):
    """Descriptors and threads at rest (start-up connections gone)."""
    adm.cmd(b"KEYS", b"x")
    last, n = None, 0
    t = time.time()
    while n < 12:
        x = (srv.nfds(), srv.threads_now(), adm.stats()["curr_connections"], adm.stats()["total_connections"])
        n = n + 1 if x == last else 0
        last = x
        if time.time() - t > 30: raise HarnessError(f"never at rest: {x}")
        time.sleep(.01)
    return last[0], last[1]

def churn_conf(r, **kw):
    a, k = rconf(r)
    k["threads"] = r.choice([1, 1, 2, 4])
    if r.random() < .4: a += ["--queuesize", r.choice(["1", "2", "7", "16", "1000"])]
    if r.random() < .5: a += ["--warmup", "no"]
    if r.random() < .3: a += ["--uring", "no"]
    if r.random() < .4: a += ["--persist", "data.db"]
    return a, dict(k, leaks=True, tcp=r.random() < .6, **kw)

def good_client(srv, r, cid, stop, errs, n):
    """A well-behaved client that checks every reply."""
    try:
        while not stop.is_set():
            proto = r.choice(["resp", "resp", "inline", "mc", "pgq"])
            c = open_conn(srv, proto)
            n[0] += 1
            for _ in range(r.choice([1, 3, 20])):
                if stop.is_set(): break
                k = b"g<%d>" % cid
                v = b"<%d>" % cid + b"%d" % r.randrange(10 ** 9)
                m = r.choice([1, 1, 10])
                if proto == "mc":
                    c.send((b"set %s 0 0 %d\r\n%s\r\nget %s\r\n" % (k, len(v), v, k)) * m)
                    for _ in range(m):
                        if c.read(memcache) != ("line", b"STORED"): bad("conn:reply", "memcache set was not stored", argv=srv.argv)
                        x = c.read(memcache)
                        if not (x[0] == "values" or x[0] == "end") or any(i[0] != k or not i[2].startswith(b"<%d>" % cid) for i in (x[1] if len(x) > 1 else [])):   # a LOAD next door may bring back an older value
                            bad("conn:crossed", f"memcache client {cid} got {x!r} after setting {k!r} to {v!r}", argv=srv.argv)
                elif proto == "pgq":
                    for _ in range(m):
                        x = c.query(b"ECHO " + pg_lit(v))
                        if [y[1] for y in x if y[0] == "D"] != [[v]]: bad("conn:crossed", f"postgres client {cid} got {x!r} for ECHO {v!r}", argv=srv.argv)
                else:
                    e = enc_resp if proto == "resp" else enc_inline
                    big = v * r.choice([1, 1, 1, 3000 if m == 1 else 50])
                    bg = r.random() < .15
                    c.send((e([b"ECHO", big]) + (e([b"KEYS", b"no" + k]) if bg else b"") + e([b"ECHO", v])) * m)
                    for _ in range(m):
                        for w in [("$", big)] + ([("*", [])] if bg else []) + [("$", v)]:
                            x = c.read(resp)
                            if x != w: bad("conn:crossed", f"client {cid} expected {repr(w)[:200]}, got {repr(x)[:300]}", argv=srv.argv)
                n[1] += m
            if not c.quiet(.001): bad("conn:extra", f"client {cid} received bytes it did not ask for: {c.pending()[:200]!r}", argv=srv.argv)
            c.close()
    except Violation as v: errs.append(v)
    except (Closed, Timeout, Bad) as e: errs.append(Violation("conn:good", f"a well-behaved client next to churning ones failed: {e!r}", {"argv": srv.argv}))
    except Exception as e: errs.append(e)

def churn(r, o, seconds, id0):
    a, kw = churn_conf(r)
    t0 = time.time()
    with Server(a, **kw) as srv:
        os.mkdir(srv.dir + "/sub", 0o555)
        adm = Resp(srv.connect())
        fds, threads = base(srv, adm)
        if r.random() < .3: adm.cmd(b"DEBUG", b"POPULATE", b"2000", b"pk", b"30")
        cid = id0
        while time.time() - t0 < seconds:
            srv.ctl.set(threaddelay=r.choice([0, 0, 500, 5000]), jitter=r.choice([0, 0, 20]), preempt=r.choice([0, 0, 100, 400]))
            s0 = adm.stats()
            errs, stop, ng = [], threading.Event(), [0, 0]
            gs = [threading.Thread(target=good_client, args=(srv, rng("gc", r.random()), cid + 900000 + i, stop, errs, ng), daemon=True) for i in range(2)]
            nthr, per = r.choice([(4, 12), (8, 6), (2, 20), (16, 3)])
            opened = [0]
            def worker(rr, ids):
                try:
                    for i in ids:
                        k, l = rr.choice(KINDS), rr.choice(LEAVE)
                        opened[0] += 1
                        Script(srv, rr, i, k, l, bool(kw["tcp"]) and rr.random() < .5).run()
                        o["kinds"].add((k, l))
                except BaseException as e: errs.append(e)
            ws = []
            for i in range(nthr):
                ws.append(threading.Thread(target=worker, args=(rng("cw", r.random()), range(cid, cid + per)), daemon=True)); cid += per
            for t in gs + ws: t.start()
            for t in ws: t.join(120)
            stop.set()
            for t in gs: t.join(120)
            srv.check()
            for e in errs: raise e
            if any(t.is_alive() for t in gs + ws): raise HarnessError("a client thread hangs")
            nopen = nthr * per + ng[0]
            srv.ctl.set(threaddelay=0)
            settled(srv, adm, fds, threads, 1, f"{nopen} clients left")
            st = adm.stats()
            d = int(st["total_connections"]) - int(s0["total_connections"])
            if d != nopen or st["rejected_connections"] != s0["rejected_connections"]:
                bad("conn:total", f"{nopen} connections were opened, total_connections rose by {d}, rejected_connections by {int(st['rejected_connections']) - int(s0['rejected_connections'])}", argv=srv.argv)
            o["conns"] += nopen; o["rounds"] += 1; o["good"] += ng[1]
        leak_exit(srv)
    return cid

def leak_exit(srv):
    """Exit with the leak checker. Entries are referenced by packed pointers, which it cannot see, so there must be none."""
    c = Resp(srv.connect())
    c.cmd(b"FLUSHALL", b"SYNC")
    c.close()
    rc = srv.stop(graceful=True)
    if rc != 0: bad("conn:exit", f"exit status {rc} after SIGTERM", argv=srv.argv)

def memory(r, o, seconds, id0):
    """The same client over and over must not cost memory."""
    a, kw = churn_conf(r)
    t0 = time.time()
    with Server(a, **kw) as srv:
        os.mkdir(srv.dir + "/sub", 0o555)
        adm = Resp(srv.connect())
        fds, threads = base(srv, adm)
        kinds = r.sample(KINDS, len(KINDS))
        cid = id0
        for k in kinds:
            if time.time() - t0 > seconds: break
            leave, seed, n = r.choice(LEAVE), r.random(), 8
            def burst():
                for i in range(n):
                    Script(srv, rng("m", seed, i), cid + i, k, leave, bool(kw["tcp"]) and i % 2 == 0).run()
                settled(srv, adm, fds, threads, 1, f"{n} {k}/{leave} clients left")
                return srv.allocbytes()
            for _ in range(2): burst()
            grows = []
            for turn in range(2):
                m = [burst() for _ in range(5)]
                g = [y - x for x, y in zip(m, m[1:])]
                grows += g
                if min(g) < 8 * 4 or time.time() - t0 > seconds + 10: break
            else:
                bad("conn:memory", f"every {n} clients of kind {k}/{leave} cost memory that is not given back: {grows} bytes", argv=srv.argv)
            o["membursts"] += 2 + len(grows)
            o["conns"] += n * (2 + len(grows)); o["kinds"].add(("mem", k, leave))
        leak_exit(srv)

def limits(r, o):
    a, kw = churn_conf(r)
    M = r.choice([1, 2, 3, 5, 16, 40])
    a += ["--maxconns", str(M)]
    if "--warmup" not in a: a += ["--warmup", "no"]
    kw["threads"] = r.choice([1, 2, 4])
    with Server(a, **kw) as srv:
        tcp = lambda: bool(kw["tcp"]) and r.random() < .5
        adm = Resp(srv.connect())
        adm.cmd(b"PING")
        rej = 0
        def attempt(hold):
            c = Resp(srv.connect(tcp=tcp()))
            c.s.settimeout(30)
            t = b"<%d>" % r.randrange(10 ** 9)
            if r.random() < .2: time.sleep(.005)
            try:
                c.send(enc_resp([b"ECHO", t]))
                x = c.read(resp)
            except Closed:
                if c.pending(): bad("limit:bytes", f"a refused connection received {c.pending()!r}", argv=srv.argv)
                c.close(); return None
            except Timeout:
                bad("limit:hang", f"a connection was neither served nor refused within 30 s (limit {M})", argv=srv.argv)
            if x != ("$", t): bad("conn:crossed", f"ECHO {t!r} gave {x!r}", argv=srv.argv)
            if hold: return c
            c.close(); return True
        held = []
        for rnd in range(r.choice([2, 4])):
            # up to the limit, one by one
            while len(held) < M - 1:
                c = attempt(True)
                if c is None: bad("limit:below", f"refused with {len(held) + 1} of {M} connections open", argv=srv.argv)
                held.append(c); o["served"] += 1
            for _ in range(r.choice([1, 3, 20])):
                if attempt(True): bad("limit:over", f"connection {M + 1} was served although --maxconns is {M}", argv=srv.argv)
                rej += 1; o["refused"] += 1
            for c in held[:3]:
                if c.cmd(b"PING") != ("+", b"PONG"): bad("limit:held", "an accepted connection suffers from refused ones", argv=srv.argv)
            st = adm.stats()
            if int(st["rejected_connections"]) != rej or int(st["curr_connections"]) != M or int(st["max_connections"]) != M:
                bad("limit:stats", f"limit {M} with {rej} refused: rejected_connections {st['rejected_connections']}, curr_connections {st['curr_connections']}, max_connections {st['max_connections']}", argv=srv.argv)
            # some leave, in some way, and exactly as many may come
            k = r.randrange(0, len(held) + 1)
            r.shuffle(held)
            for c in held[:k]:
                w = r.random()
                if w < .3: rst(c.s)
                elif w < .5: c.send(enc_resp([b"KEYS", b"x"]))
                elif w < .7: c.send(enc_resp([b"QUIT"]))
                c.close()
            held = held[k:]
            t = time.time()
            while int(adm.stats()["curr_connections"]) != len(held) + 1:
                if time.time() - t > WAIT: bad("conn:curr", f"curr_connections is {adm.stats()['curr_connections']} with {len(held) + 1} open, {WAIT} s after {k} left", argv=srv.argv)
                time.sleep(.005)
            # a storm without departures: exactly as many are served as there is room for
            room = M - 1 - len(held)
            n = room + r.choice([1, 5, 30])
            got, errs = [], []
            def one():
                try:
                    c = attempt(True)
                    if c: got.append(c)
                except BaseException as e: errs.append(e)
            ths = [threading.Thread(target=one, daemon=True) for _ in range(n)]
            for t in ths: t.start()
            for t in ths: t.join(60)
            for e in errs: raise e
            rej += n - len(got); o["refused"] += n - len(got); o["served"] += len(got)
            if len(got) != room:
                bad("limit:storm", f"{n} clients came at once with room for {room} (limit {M}): {len(got)} were served", argv=srv.argv)
            held += got
            o["kinds"].add(("limit", M, kw["threads"], k, n))
        for c in held: c.close()
        held = []
        t = time.time()
        while int(adm.stats()["curr_connections"]) != 1 and time.time() - t < WAIT: time.sleep(.005)
        if M > 1: leak_exit(srv)
    o["rounds"] += 1

def burst(r, o):
    """Clients whose first bytes are all there at the same moment: exactly as many are served as there is room for."""
    a, kw = churn_conf(r)
    M = r.choice([2, 3, 8, 41, 101])
    a = [x for i, x in enumerate(a) if x != "--queuesize" and (i == 0 or a[i - 1] != "--queuesize")]
    a += ["--maxconns", str(M)]
    if "--warmup" not in a: a += ["--warmup", "no"]
    kw["threads"] = r.choice([4, 8])
    kw["leaks"] = False
    with Server(a, **kw) as srv:
        adm = Resp(srv.connect())
        adm.cmd(b"PING")
        rej = 0
        for rnd in range(40 if M < 40 else 15):
            t = time.time()
            n = M - 1 + r.choice([1, M, 3 * M])
            nf = srv.nfds()
            cs = [Resp(srv.connect(tcp=bool(kw["tcp"]) and r.random() < .2)) for _ in range(n)]
            while srv.nfds() < nf + n and time.time() - t < 30: time.sleep(.001)
            os.kill(srv.pid, signal.SIGSTOP)
            try:
                for c in cs: c.send(b"*1\r\n$4\r\nPING\r\n")
            finally: os.kill(srv.pid, signal.SIGCONT)
            got = 0
            for c in cs:
                try:
                    if c.read(resp) != ("+", b"PONG"): bad("limit:burst", "a wrong reply to PING", argv=srv.argv)
                    got += 1
                except Closed:
                    if c.pending(): bad("limit:bytes", f"a refused connection received {c.pending()!r}", argv=srv.argv)
            if got != M - 1:
                bad("limit:burst", f"{n} clients sent their first request at the same moment, the limit is {M} and one was open: {got} were served", argv=srv.argv)
            rej += n - got
            for c in cs: c.close()
            t = time.time()
            while True:
                st = adm.stats()
                if int(st["curr_connections"]) == 1 and srv.nfds() == nf: break
                if time.time() - t > WAIT:
                    bad("conn:curr", f"one connection is open, {WAIT} s after {n} clients of a burst left curr_connections is {st['curr_connections']} and {srv.nfds() - nf} more descriptors are used", argv=srv.argv)
                time.sleep(.002)
            if int(st["rejected_connections"]) != rej: bad("limit:stats", f"{rej} clients were refused in {rnd + 1} bursts, rejected_connections is {st['rejected_connections']}", argv=srv.argv)
            o["served"] += got; o["refused"] += n - got; o["bursts"] += 1
            o["kinds"].add(("burst", M, kw["threads"], n))

def hold(r, o, seconds):
    """Many connections at once: every one is served, counted and released, in any order of coming and going."""
    a, kw = churn_conf(r)
    if "--warmup" not in a: a += ["--warmup", "no"]
    kw["threads"] = r.choice([1, 1, 2, 3])
    a += ["--maxconns", "2000"]
    t0 = time.time()
    with Server(a, **kw) as srv:
        os.mkdir(srv.dir + "/sub", 0o555)
        adm = Resp(srv.connect())
        fds, threads = base(srv, adm)
        s0 = adm.stats()
        held, opened, id_ = [], 0, 0
        def use(c):
            nonlocal id_
            id_ += 1
            t = b"<%d>" % (900000 + id_)
            if c.proto == "mc": c.send(b"get %s\r\n" % t); ok = c.read(memcache) in (("values", []), ("end",), ("end", []))
            elif c.proto == "pgq": ok = [x[1] for x in c.query(b"ECHO " + pg_lit(t)) if x[0] == "D"] == [[t]]
            else:
                c.send(enc_resp([b"ECHO", t]) if c.proto == "resp" else enc_inline([b"ECHO", t])); ok = c.read(resp) == ("$", t)
            if not ok: bad("conn:crossed", f"one of {len(held)} open connections ({c.proto}) got a wrong reply", argv=srv.argv)
        def count(what):
            # connections that were used are counted exactly, those that left within a moment
            t = time.time()
            while True:
                st = adm.stats()
                c, n = int(st["curr_connections"]), srv.nfds()
                if (c, n) == (len(held) + 1, fds + len(held)): break
                if time.time() - t > WAIT:
                    bad("conn:curr", f"{what}: {len(held) + 1} connections are open, curr_connections is {c}, {n - fds + 1} descriptors are used", argv=srv.argv)
                time.sleep(.01)
            d = int(st["total_connections"]) - int(s0["total_connections"])
            if d != opened or st["rejected_connections"] != s0["rejected_connections"]:
                bad("conn:total", f"{what}: {opened} connections were opened, total_connections rose by {d}, rejected_connections by {int(st['rejected_connections']) - int(s0['rejected_connections'])}", argv=srv.argv)
        try:
            k = 0
            while time.time() - t0 < seconds or k < 3:
                k += 1
                want = r.choice([10, 40, 100, 200, 300] if k > 1 else [130, 260])
                while len(held) < want:
                    p = r.choice(["resp", "resp", "inline", "mc", "pgq"])
                    c = open_conn(srv, p); c.proto = p
                    opened += 1; held.append(c)
                    if r.random() < .8 or p == "pgq": use(c)
                r.shuffle(held)
                for c in held: use(c)
                count(f"after {opened} connections came and {opened - len(held)} left")
                m = r.choice([0, len(held) // 2, len(held) - 1, len(held)])
                for c in held[:m]:
                    if r.random() < .3: rst(c.s)
                    c.close()
                held = held[m:]
                count(f"after {opened} connections came and {opened - len(held)} left")
                o["conns"] += want; o["held"] = max(o["held"], want); o["rounds"] += 1
                o["kinds"].add(("hold", kw["threads"], want, m))
        except (Closed, Timeout, Bad) as e:
            srv.check()
            bad("conn:held", f"one of {len(held)} open connections was not served: {e!r}", argv=srv.argv)
        for c in held: c.close()
        held = []
        settled(srv, adm, fds, threads, 1, "all clients left")
        leak_exit(srv)

def conn_job(n, seconds):
    r = rng("conn", n)
    t0 = time.time()
    o = {"conns": 0, "rounds": 0, "good": 0, "served": 0, "refused": 0, "membursts": 0, "held": 0, "bursts": 0, "kinds": set()}
    cid = 1000000 * (n + 1)
    k = 0
    while time.time() - t0 < seconds or not k:
        left = max(3, seconds - (time.time() - t0))
        w = (n + k) % 8
        if k % 3 == 0: hold(r, o, 1.5)
        if w in (0, 2, 5, 6): burst(r, o)
        if w in (2, 6):
            for _ in range(4): limits(r, o)
        elif w in (3, 7): memory(r, o, left, cid)
        else: churn(r, o, min(7, left), cid)
        k += 1
        cid += 20000
    return o
