"""Attackers without the password next to an authenticated observer (C18)."""
import hashlib
from session import *
from kv import *
from fuzz import base_stream, mutate, tame, special, PROT6
from framing import words

STATS = ["cmd_get", "cmd_set", "cmd_flush", "cmd_touch", "get_hits", "get_misses", "delete_hits", "delete_misses", "incr_hits", "incr_misses", "decr_hits", "decr_misses", "cas_hits", "cas_misses", "cas_badval", "touch_hits", "touch_misses",
         "curr_items", "total_items"]

def wrong(r, pw):
    """Credentials that are not the password."""
    sw = pw.swapcase()
    c = [b"", pw[:-1], pw[1:], pw + b"x", b"x" + pw, pw[:1], pw + pw, pw[:-1] + bytes([pw[-1] ^ 1]), bytes([pw[0] ^ 1]) + pw[1:], pw[:-1] + b"\0", pw + b"\0", b"\0" + pw, b"\0", b"x" * len(pw), r.randbytes(len(pw)), pw[::-1], pw[:len(pw) // 2],
         pw + b"\0junk", b"*" * len(pw), b"0" * 1000, b"pw", b"admin", b"null", b"(null)"] + ([sw] if sw != pw else [])
    while True:
        x = r.choice(c)
        if x != pw: return x

class Arena:
    def __init__(self, srv, r, pw, o):
        self.srv, self.r, self.pw, self.o = srv, r, pw, o
        self.adm = Resp(srv.connect())
        v = self.adm.cmd(b"AUTH", pw)
        if v != ("+", b"OK"): self.fail("auth:right", f"the right password was answered {v!r}", [])
        self.token = b"SeCrEt%s" % r.randbytes(6).hex().encode()
        self.n = 1000 + r.randrange(8999)
        self.keys = []
        for i in range(40):
            k = r.choice([self.token + b"k%d" % i, b"k%d" % i, b"key:%d" % i, b"user_%d" % i])
            self.adm.cmd(b"SET", k, r.choice([self.token + b"v%d" % i, self.token * 20]), *r.choice([[], [b"EX", b"5000"], [b"FLAGS", b"7"]]))
            self.keys.append(k)
        self.adm.cmd(b"SET", b"k1", self.token); self.adm.cmd(b"SET", b"k", self.token + b"num")
        self.adm.cmd(b"SAVE")
        self.want = self.digest()
        self.st = self.stats()
        self.files = self.dirstate()
        self.monitors = []
    def fail(self, key, msg, streams):
        raise Violation(key, msg, {"argv": self.srv.argv, "streams": [x.hex() for x in streams][-40:]})
    def digest(self):
        ks = self.adm.cmd(b"KEYS", b"*")
        names = sorted(x[1] for x in ks[1])
        v = self.adm.cmd(b"MGETS", *names) if names else None
        rows = []
        for k, e in zip(names, v[1]):
            t = self.adm.cmd(b"TTL", k)[1]
            rows.append((k, e[1][0], e[1][-1], t == -1))
        return rows
    def stats(self):
        self.srv.idle()
        s = self.adm.stats()
        return {k: s.get(k) for k in STATS if k in s}
    def dirstate(self):
        return sorted((f, hashlib.sha1(open(os.path.join(self.srv.dir, f), "rb").read()).hexdigest()) for f in os.listdir(self.srv.dir) if f.startswith("snap") or f in ("a", "b") or f.endswith(".work"))
    def unchanged(self, streams):
        try:
            # the digest itself counts reads, so counters are compared before it
            st = self.stats()
            if st != self.st:
                d = {k: (self.st[k], st[k]) for k in st if st[k] != self.st.get(k)}
                self.fail("auth:stats", f"counters moved by unauthenticated clients {d}; last streams {[x[:200] for x in streams[-8:]]!r}", streams)
            d = self.digest()
            if d != self.want:
                x = [y for y in d if y not in self.want] + [("gone", y) for y in self.want if y not in d]
                self.fail("auth:changed", f"the content was changed by unauthenticated clients: {x!r:.500}; last streams {[x[:200] for x in streams[-8:]]!r}", streams)
            f = self.dirstate()
            if f != self.files:
                self.fail("auth:file", f"files were written by unauthenticated clients: {f} instead of {self.files}; last streams {[x[:200] for x in streams[-8:]]!r}", streams)
            self.st = self.stats()
            # a command of an authenticated client must not reach an unauthenticated monitor
            self.adm.cmd(b"ECHO", self.token)
            for m, s in list(self.monitors):
                m.settimeout(.02)
                try: x = m.recv(1 << 18)
                except OSError: x = b""
                if self.token in x: self.fail("auth:monitor", f"an unauthenticated client received {x!r:.300} after {s!r:.300}", [s])
                m.close(); self.monitors.remove((m, s))
        except (Closed, Timeout, Bad) as e:
            self.srv.check(); self.fail("auth:observer", f"the authenticated observer lost service: {e!r}", streams)
        self.o["digests"] += 1
    def scan(self, stream, out, proto):
        self.o["replybytes"] += len(out)
        if self.token in out and self.token not in stream:
            i = out.find(self.token)
            self.fail("auth:leak", f"{proto}: an unauthenticated client read {out[max(0, i - 60):i + 60]!r} with {stream[:600]!r}", [stream])
    def attack(self, stream, proto, hold=False):
        s = self.srv.connect(timeout=20)
        out = bytearray()
        try:
            s.sendall(stream)
            if hold:
                s.settimeout(.02)
                try: out += s.recv(1 << 18)
                except OSError: pass
                self.monitors.append((s, stream))
                self.scan(stream, bytes(out), proto)
                return bytes(out)
            s.shutdown(socket.SHUT_WR)
            while True:
                x = s.recv(1 << 18)
                if not x: break
                out += x
        except OSError: pass
        if not hold: s.close()
        self.o["streams"] += 1
        self.scan(stream, bytes(out), proto)
        return bytes(out)

READS = [[b"GET", b"k1"], [b"MGETS", b"k1", b"k"], [b"KEYS", b"*"], [b"SCAN", b"0"], [b"DBSIZE"], [b"STATS"], [b"EXISTS", b"k1"], [b"TTL", b"k1"], [b"SET", b"k1", b"owned"], [b"DEL", b"k1"], [b"FLUSHALL"], [b"FLUSH", b"ASYNC"], [b"APPEND", b"k1", b"x"],
         [b"INCR", b"newkey"], [b"EXPIRE", b"k1", b"1"], [b"SAVE"], [b"SAVE", b"TO", b"a"], [b"LOAD"], [b"MONITOR"], [b"SWEEP"], [b"PURGE"], [b"DEBUG", b"POPULATE", b"3", b"z", b"3"], [b"PING"], [b"ECHO", b"x"], [b"SELECT", b"0"], [b"TOUCH", b"k1"],
         [b"SETEX", b"k1", b"9", b"owned"], [b"SET", b"k1", b"owned", b"GET"], [b"PREPEND", b"k1", b"x"], [b"UINCRBY", b"n", b"4"], [b"MGET", b"k1", b"k2"], [b"PTTL", b"k1"], [b"CONFIG", b"GET", b"auth"], [b"NOSUCH"]]

def crafted(A):
    """Wrong credentials followed by access; every reply must be a refusal."""
    r, pw = A.r, A.pw
    w = wrong(r, pw)
    proto = r.choice(PROT6)
    cmds = [r.choice(READS) for _ in range(r.choice([1, 2, 5]))]
    if proto in ("resp", "inline"):
        enc = enc_resp if proto == "resp" else (lambda a: enc_inline(a, r))
        pre = r.choice([[], [[b"AUTH", w]], [[b"auth", w], [b"AUTH"]], [[b"AUTH", b"default", w]], [[b"AUTH", b"a", b"b", b"c"]], [[b"NOSUCH"], [b"AUTH", w]], [[b"AUTH", w]] * 5, [[b"AUTHX", pw]], [[b"AUT", pw]], [[b"ECHO", pw]], [[b"AUTH", w, pw]], [[pw]], [[b"AUTH " + pw]],
                        [[b"GET", pw]], [[b"auth\0", pw]], [[b"QAUTH", pw]]])
        if proto == "inline":
            pre = [p for p in pre if p[0] != pw]
            pre.insert(0, [b"PING"])
        stream = b"".join(enc(a) for a in pre + cmds)
        out = A.attack(stream, proto, hold=[b"MONITOR"] in cmds)
        p, n = 0, 0
        while p < len(out):
            try: x = resp(out, p)
            except Bad as e: A.fail("auth:bad", f"{proto} {stream!r:.300}: {e}", [stream])
            if x is None: break
            if x[0][0] != "-": A.fail("auth:open", f"{proto}: the unauthenticated request number {n} of {pre + cmds!r:.400} was answered {x[0]!r:.200}", [stream])
            p = x[1]; n += 1
        if n != len(pre + cmds) and [b"MONITOR"] not in cmds: A.fail("auth:count", f"{proto}: {len(pre + cmds)} refused requests got {n} replies: {out!r:.300}", [stream])
    elif proto == "mc":
        qs = [b"get k1\r\n", b"gets k1 k\r\n", b"set k1 0 0 5\r\nowned\r\n", b"delete k1\r\n", b"flush_all\r\n", b"stats\r\n", b"incr k1 1\r\n", b"touch k1 1\r\n", b"append k1 0 0 1\r\nx\r\n", b"version\r\n", b"mn\r\n", b"set k1 0 0 5 noreply\r\nowned\r\n", b"flush_all noreply\r\n",
              b"delete k1 noreply\r\n", b"auth %s\r\n" % pw, b"set auth 0 0 %d\r\n%s\r\n" % (len(pw), pw), b"add zz 0 0 1\r\nx\r\n", b"cas k1 0 0 1 1\r\nx\r\n", b"cas k1 0 0 1 1 noreply\r\nx\r\n"]
        stream = b"".join(r.choice(qs) for _ in range(r.choice([1, 3, 8])))
        out = A.attack(stream, proto)
        for l in out.split(b"\r\n"):
            if l and not l.startswith((b"ERROR", b"CLIENT_ERROR", b"SERVER_ERROR")): A.fail("auth:open", f"mc: unauthenticated {stream!r:.300} was answered {out!r:.300}", [stream])
    elif proto == "http":
        k = r.choice([b"k1", b"k", b"key:1"])
        q = r.choice([b"", b"?auth=" + w.replace(b"\0", b"").replace(b" ", b"") if w.replace(b"\0", b"").replace(b" ", b"") != pw and not re.search(rb"[&=?\r\n]", w) else b"", b"?xauth=" + pw, b"?auth", b"?auth=", b"?Auth=" + pw, b"?pw=" + pw, b"?" + pw])
        h = r.choice([b"", b"Authorization: Bearer " + w if not re.search(rb"[\r\n]", w) and w.strip(b" ") != pw else b"", b"Authorization: Basic " + pw, b"Authorization: " + pw, b"Authorization:", b"Authorization: Bearer", b"X-Authorization: Bearer " + pw, b"Auth: " + pw, b"Cookie: auth=" + pw,
                      b"Authorization: Bearer" + pw, b"Authorization: Bearer " + pw + b"x", b"Authorization: Bearer x" + pw, b"Proxy-Authorization: Bearer " + pw])
        m = r.choice([b"GET", b"GET", b"PUT", b"DELETE"])
        body = b"owned" if m == b"PUT" else b""
        stream = m + b" /" + k + q + b" HTTP/1.1\r\n" + (h + b"\r\n" if h else b"") + (b"Content-Length: 5\r\n" if body else b"") + b"\r\n" + body
        out = A.attack(stream, proto)
        try: x = http(out, 0)
        except Bad as e: A.fail("auth:bad", f"http {stream!r:.300}: {e}", [stream])
        if x is not None and x[0][1] not in (400, 401): A.fail("auth:open", f"http: unauthenticated {stream!r:.400} was answered {x[0]!r:.200}", [stream])
        if x is None: A.fail("auth:count", f"http: {stream!r:.300} got no reply: {out!r:.200}", [stream])
    else:
        z = w.replace(b"\0", b"") if w.replace(b"\0", b"") != pw else b"x"
        pm = lambda x: pg_m(b"p", x + b"\0")
        tail = b""
        for a in cmds:
            if proto == "pgq": tail += pg_q(b" ".join(pg_lit(x) for x in a))
            else: tail += pg_parse(a[0] + b"".join(b" $%d" % (i + 1) for i in range(len(a) - 1))) + pg_bind(a[1:]) + pg_exec() + PG_SYNC
        su = pg_startup(user="u", database="d")
        pre = r.choice([b"", su, su + pm(z), su + pm(b""), su + su, pm(z) + su, su + pg_m(b"p", pw), su + pg_m(b"p", b"\0" + pw + b"\0"), su + pg_q(b"AUTH '" + pw.replace(b"'", b"''") + b"'"), pg_startup(user="u", password=pw, database=pw),
                        su + pg_m(b"P", pw + b"\0"), struct.pack(">ii", 8, 80877103) + su, su + PG_SYNC, su + pg_parse(b"AUTH $1") + pg_bind([pw]) + pg_exec() + PG_SYNC, su + pg_m(b"p", pw + b"\0x\0"), pm(pw), pm(pw)[:-1] + tail[:0], su + pg_m(b"p", pw[:-1] + b"\0" + pw[-1:] + b"\0")])
        stream = pre + tail
        out = A.attack(stream, proto)
        p = 0
        if out[:1] == b"N" and pre[:8] == struct.pack(">ii", 8, 80877103): p = 1
        while p < len(out):
            try: x = pgmsg(out, p)
            except Bad: break
            if x is None: break
            if x[0][0] in "TDC" or x[0] == ("R", 0): A.fail("auth:open", f"{proto}: unauthenticated {stream!r:.400} was answered {x[0]!r:.200}", [stream])
            p = x[1]
    A.o["crafted"] += 1
    A.o["kinds"].add((proto, "crafted", out[:20]))

def positive(A):
    """The right password opens exactly the connection that presented it."""
    r, pw, srv = A.r, A.pw, A.srv
    proto = r.choice(["resp", "inline", "pgq", "http", "httpq"])
    tok = ("$", A.token)
    def closed(c, what):
        v = c.cmd(b"GET", b"k1")
        if v[0] != "-": A.fail("auth:other", f"a connection without the password reads {v!r} after {what}", [])
    try:
        sib = Resp(srv.connect()); closed(sib, "nothing")
        if proto in ("resp", "inline"):
            c = Resp(srv.connect())
            enc = enc_resp if proto == "resp" else enc_inline
            n = r.randrange(0, 4)
            blob = b"".join(enc([b"AUTH", wrong(r, pw)]) + enc([b"GET", b"k1"]) for _ in range(n)) if proto == "resp" else enc([b"PING"]) * 2 * n
            c.send(blob + enc([b"GET", b"k1"]) + enc([b"AUTH", pw]) + enc([b"GET", b"k1"]))
            got = [c.read(resp) for _ in range(2 * n + 3)]
            if any(v[0] != "-" for v in got[:2 * n + 1]) or got[-2] != ("+", b"OK") or got[-1] != tok:
                A.fail("auth:right", f"{proto}: {n} wrong passwords, then the right one, then GET gave {got!r:.400}", [blob])
            closed(sib, "another connection authenticated")
            c.close(); n = 1
        elif proto == "pgq":
            c = Pg(srv.connect()); m = c.start(pw)
            if m[-1] != ("Z", b"I"): A.fail("auth:right", f"Postgres start with the right password gave {m!r:.300}", [])
            rows = [x[1] for x in c.query(b"GET k1") if x[0] == "D"]
            if rows != [[A.token]]: A.fail("auth:right", f"Postgres GET after the right password gave {rows!r:.200}", [])
            closed(sib, "a Postgres connection authenticated")
            c.close(); n = 1
        else:
            q = http_get(b"k1", pw) if proto == "http" else b"GET /k1?auth=" + pw + b" HTTP/1.1\r\n\r\n"
            v = http_req(srv, q)
            if v[1] != 200 or v[3] != A.token: A.fail("auth:right", f"HTTP GET with the right password gave {v!r:.200}", [q])
            closed(sib, "an HTTP request was authorized")
            v = http_req(srv, http_get(b"k1"))
            if v[1] != 401: A.fail("auth:open", f"HTTP GET without password after one with it gave {v!r:.200}", [q])
            n = 1
        new = Resp(srv.connect()); closed(new, "a connection before it authenticated and left"); new.close()
        sib.close()
    except (Closed, Timeout, Bad) as e:
        srv.check(); A.fail("auth:service", f"{proto}: {type(e).__name__} {e}", [])
    A.o["positive"] += 1
    A.st = A.stats()

def auth_job(n, seconds, tag="c18"):
    r = rng(tag, n)
    t0 = time.time()
    o = {"streams": 0, "crafted": 0, "positive": 0, "digests": 0, "replybytes": 0, "kinds": set(), "servers": 0}
    while time.time() - t0 < seconds:
        pw = r.choice([b"pA%s" % r.randbytes(8).hex().encode(), b"Zq" + b"x" * 200 + r.randbytes(3).hex().encode(), b"p", b"a-b_c.D~9", b"12345678901234567890", b"Tok%sEn" % r.randbytes(2).hex().encode()])
        o["servers"] += 1
        d = scratch("pgau")
        with Server(["--auth", pw.decode(), "--persist", os.path.join(d, "snap")] + r.choice([[], ["--cas", "yes"]]), dir=d, threads=r.choice([1, 2, 4]), shards=r.choice([1, 16])) as srv:
            srv.allow_escape = True
            A = Arena(srv, r, pw, o)
            gen = Gen(r, nkeys=10, big=False)
            gen.keys += [b"k", b"k1"] + A.keys[:6]
            model = Model(srv.ctl.boot, srv.ctl.real, True)
            end = min(t0 + seconds, time.time() + tier(7, 60))
            last = []
            while time.time() < end:
                for _ in range(40):
                    if r.random() < .5:
                        crafted(A)
                        continue
                    proto = r.choice(PROT6)
                    x = r.random()
                    if x < .6: s = mutate(r, base_stream(r, gen, model, proto))
                    elif proto == "resp": s = b"".join(enc_resp(words(r)) for _ in range(5))
                    else: s = b"".join(base_stream(r, gen, model, proto))
                    s = s.replace(b"AUTH pw\r\n", b"")
                    if not s or pw in s or not tame(s) or any(pw[:k] in s and len(pw) < 3 for k in (1,)): continue
                    last.append(s); del last[:-60]
                    A.attack(s, proto, hold=r.random() < .03)
                    o["kinds"].add((proto, "stream", len(s).bit_length()))
                A.unchanged(last)
                positive(A)
                srv.check_log()
            srv.check()
        drop_scratch(d)
    return o
