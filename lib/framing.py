"""One well-formed reply per request: every request is followed by a sentinel with a unique answer (C16)."""
from session import *
from kv import *
from fuzz import special, NUMS, WORDS

NASTY = [b"", b"\0", b"\r\n", b"\n", b"\r", b"\r\n+OK\r\n", b"\r\nEND\r\n", b"$-1\r\n", b"*3\r\n", b"'", b"''", b'"', b"\\", b"%s%n%d", b"$1", b" ", b"\t", b"\x80\xff\xfe", b"\x1b[0m", b"VALUE k 0 3\r\nabc\r\nEND\r\n", b"HTTP/1.1 200 OK\r\n\r\n",
         b"a" * 127, b"a" * 128, b"a" * 129, b"b" * 255, b"b" * 256, b"c" * 1023, b"c" * 1024, b"c" * 1025, b"d" * 5000, b"\xc3\xa9", b"\xed\xa0\x80", b"::text", b"::bytea", b";"]
CMDS = [b"SET", b"GET", b"DEL", b"MGET", b"MGETS", b"SETEX", b"KEYS", b"SCAN", b"DBSIZE", b"ECHO", b"PING", b"TOUCH", b"EXISTS", b"EXPIRE", b"TTL", b"PTTL", b"INCR", b"DECR", b"INCRBY", b"DECRBY", b"UINCRBY", b"UDECRBY", b"UINCR", b"UDECR",
        b"APPEND", b"PREPEND", b"STATS", b"SWEEP", b"PURGE", b"FLUSHALL", b"FLUSHDB", b"FLUSH", b"SAVE", b"LOAD", b"SELECT", b"AUTH", b"DEBUG", b"CLIENT", b"COMMAND", b"CONFIG", b"INFO", b"HELLO", b"HGET", b"MULTI", b"TYPE", b"SUBSCRIBE", b"X", b"BEGIN", b"COMMIT", b"ROLLBACK"]
SUB = [b"SYNC", b"ASYNC", b"FAST", b"DELAY", b"TO", b"FROM", b"EX", b"PX", b"EXAT", b"PXAT", b"NX", b"XX", b"GET", b"KEEPTTL", b"FLAGS", b"CAS", b"COUNT", b"MATCH", b"TYPE", b"POPULATE", b"DETACH"]

def words(r):
    """An argument list that is one request: a known or unknown command with any arguments."""
    while True:
        x = r.random()
        c = r.choice(CMDS) if x < .8 else r.choice([b"NOSUCH", r.randbytes(r.randrange(1, 30)), r.choice(NASTY), b"get", b"gets", b"Z" * r.choice([1, 100, 250, 1000])])
        a = [c] + [r.choice([r.choice(NASTY), r.choice(NUMS), r.choice(SUB), b"k%d" % r.randrange(6), r.randbytes(r.randrange(20)), b"*"]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 9]))]
        u = [y.upper() for y in a]
        if c.upper() in (b"QUIT", b"MONITOR") or (c.upper() in (b"FLUSH", b"FLUSHALL", b"FLUSHDB") and b"DELAY" in u) or (c.upper() == b"DEBUG" and (b"POPULATE" in u or b"DETACH" in u)): continue
        if c.upper() in (b"BEGIN", b"COMMIT", b"ROLLBACK") and len(a) > 1: continue
        return a

# requests of the memcache protocol answered by exactly one error line
def mcbad(r):
    big = b"k" * r.choice([251, 252, 300, 1000])
    v = r.choice([b"", b"abc", b"get k\r\nget k", b"\r\n\r\n", b"x" * 100])
    n = len(v)
    return r.choice([
        b"get %s\r\n" % big, b"gets %s\r\n" % big, b"delete %s\r\n" % big, b"incr %s 1\r\n" % big, b"touch %s 1\r\n" % big, b"get\r\n", b"gets\r\n", b"touch k\r\n", b"incr k\r\n", b"decr k\r\n", b"delete\r\n", b"incr k x\r\n", b"incr k -1\r\n", b"incr k 18446744073709551616\r\n",
        b"touch k x\r\n", b"nosuch\r\n", b"nosuch a b c\r\n", b"%s\r\n" % (b"z" * r.randrange(1, 2000)), b"g\xff\x01 k\r\n", b"\x7f\r\n", b"\r\n", b"flush_all x y z\r\n", b"incr k 1 2\r\n", b"decr k 1 2 3\r\n",
        b"set %s 0 0 %d\r\n%s\r\n" % (big, n, v), b"add %s 0 0 %d\r\n%s\r\n" % (big, n, v), b"cas %s 0 0 %d 5\r\n%s\r\n" % (big, n, v), b"append %s 0 0 %d\r\n%s\r\n" % (big, n, v),
        b"set k x 0 %d\r\n%s\r\n" % (n, v), b"set k -1 0 %d\r\n%s\r\n" % (n, v), b"set k 0 x %d\r\n%s\r\n" % (n, v), b"replace k y 0 %d\r\n%s\r\n" % (n, v), b"prepend k x 0 %d\r\n%s\r\n" % (n, v),
        b"cas k 0 0 %d x\r\n%s\r\n" % (n, v), b"cas k 0 0 %d -5\r\n%s\r\n" % (n, v), b"set k 1 99999999999999999999 %d\r\n%s\r\n" % (n, v), b"set k 0 0 x\r\n", b"set k 0 0 -1\r\n", b"set k 5 0\r\n", b"add k\r\n", b"set\r\n",
        b"%s k 0 0 3\r\nabc%s" % (r.choice([b"set", b"set", b"append", b"prepend"]), r.choice([b"X\n", b" \n", b"\n\n", b"\0\n"]))])
# (a refused store that says noreply may or may not be answered and is not used)

# requests that end a connection after one error
RESPBAD = [b"*x\r\n", b"*1\r\n+x\r\n", b"*1\r\n$-1\r\n", b"*1\r\n$x\r\n", b"*99999999999\r\n", b"*1\r\n$99999999999\r\n", b"*2\r\n$3\r\nGET\r\n:1\r\n", b"*1\r\n$4\rxPING\r\n", b"*1\r\n\0", b"*1\r\n\xff", b"*1\r\n\n", b"*1\r\n\r", b"*1\r\n$" + b"1" * 40,
           b"*" + b"1" * 40, b"*1 \r\n", b"*\r\n", b"*1\r\n$\r\n", b"*+1\r\n"[:0] + b"*1\r\n(5\r\n"]
INLBAD = [b'ECHO "x\r\n', b"ECHO 'x\r\n", b'ECHO "x"y\r\n', b"ECHO 'a'b\r\n", b'"\r\n', b"SET k 'v\r\n", b"ECHO 'a\\'\r\n"]
def httpbad(r):
    return r.choice([b"POST /k HTTP/1.1\r\n\r\n", b"PATCH /k HTTP/1.1\r\nHost: x\r\n\r\n", b"X /k HTTP/1.1\r\n\r\n", b"PUT /k HTTP/1.1\r\nContent-Length: x\r\n\r\n", b"PUT /k HTTP/1.1\r\nContent-Length: -1\r\n\r\n", b"GET /k HTTP/1.1\r\nNoColon\r\n\r\n",
                     b"PUT /k?ttl=x HTTP/1.1\r\nContent-Length: 1\r\n\r\nx", b"PUT /k?cas=x HTTP/1.1\r\nContent-Length: 1\r\n\r\nx", b"PUT /k?flags=-1 HTTP/1.1\r\nContent-Length: 1\r\n\r\nx", b"PUT /k?ttl=0 HTTP/1.1\r\nContent-Length: 1\r\n\r\nx",
                     b"GET k HTTP/1.1\r\n\r\n", b"GET /k HTTP/3.0\r\n\r\n"])

class Framer:
    def __init__(self, srv, r, o): self.srv, self.r, self.o, self.n = srv, r, o, 0
    def fail(self, proto, msg, reqs):
        raise Violation(f"frame:{proto}", f"{proto}: {msg}; requests {[repr(q)[:160] for q in reqs][-12:]}", {"argv": self.srv.argv, "requests": [q.hex() for q in reqs][-60:]})
    def sentinel(self, proto):
        self.n += 1
        u = b"se%dn%s" % (self.n, self.r.randbytes(4).hex().encode())
        if proto == "resp": return enc_resp([b"ECHO", u]), ("$", u)
        if proto == "inline": return b"ECHO " + u + b"\r\n", ("$", u)
        if proto == "mc" and self.nomem: return b"version\r\nget zz\r\n", "nomem"
        if proto == "mc": return b"set zz 0 0 %d noreply\r\n%s\r\nget zz\r\n" % (len(u), u), ("values", [(b"zz", 0, u, None)])
        return pg_q(b"ECHO '" + u + b"'"), u
    def one(self, proto, auth_missing=False):
        """A request and a description of what may answer it."""
        r = self.r
        if proto == "mc":
            x = r.random()
            if x < .4: return mcbad(r), "err"
            if x < .5: return r.choice([b"version\r\n", b"stats\r\n", b"flush_all\r\n", b"mn\r\n", b"flush_all 0\r\n"]), "any"
            if x < .56: return r.choice([b"flush_all noreply\r\n", b"flush_all 0 noreply\r\n", b"delete k noreply\r\n", b"touch k 5 noreply\r\n", b"incr k 1 noreply\r\n", b"set k 0 0 1 noreply\r\n5\r\n", b"append k 0 0 1 noreply\r\n7\r\n",
                                         b"cas k 0 0 1 7 noreply\r\nx\r\n", b"add k 0 0 1 noreply\r\nx\r\n", b"replace k 0 0 1 noreply\r\nx\r\n", b"decr nokey 1 noreply\r\n", b"cas nokey 0 0 1 7 noreply\r\nx\r\n", b"prepend nokey 0 0 1 noreply\r\nx\r\n"]), "none"
            while True:
                op = self.gen.op(self.model)
                if can("mc", op): return render("mc", op, r), "none" if noreply("mc", op) else "any"
        if proto in ("resp", "inline"):
            if r.random() < .5:
                a = words(r)
                if not a[0] and proto == "inline" and len(a) == 1: a = [b"PING"]
                if len(b"".join(a)) > 60000 or (proto == "inline" and a[0][:1] == b"*"): a = [b"PING"]
                return (enc_resp(a) if proto == "resp" else enc_inline(a, r)), "any"
        else:
            if r.random() < .5:
                a = words(r)
                if not a[0]: a[0] = b"''"
                if proto == "pgq":
                    a = [x.replace(b"\0", b"0") for x in a]
                    if a[0][:1] in b":" or a[0].upper() in (b"E", b"E''"): a[0] = b"GET"
                    return pg_q(b" ".join(pg_lit(x) for x in a)), "any"
                if len(a) > 1 and a[0].isalpha() and a[0].upper() != b"E":
                    sql = a[0] + b"".join(b" $%d" % (i + 1) for i in range(len(a) - 1))
                    nm = r.choice([b"", b"st"])
                    return pg_parse(sql, nm) + pg_bind(a[1:], b"", nm, r.choice([(), (0,), (1,)])) + (pg_desc(b"P") if r.random() < .3 else b"") + pg_exec() + PG_SYNC, "any"
            if r.random() < .1:
                return r.choice([pg_q(b""), pg_q(b"  "), pg_q(b";"), PG_SYNC, pg_q(b"GET 'x"), pg_q(b'GET "x"'), pg_q(b"GET $1"), pg_parse(b"GET $2") + pg_bind([b"a"]) + pg_exec() + PG_SYNC, pg_bind([b"x"], b"", b"nosuchstmt") + pg_exec() + PG_SYNC,
                                 pg_parse(b"GET $1") + pg_bind([]) + pg_exec() + PG_SYNC, pg_m(b"z", b"") + PG_SYNC, pg_exec(b"nosuchportal") + PG_SYNC, pg_parse(b"GET 'x") + pg_bind([]) + pg_exec() + PG_SYNC, pg_q(b"BEGIN"), pg_q(b"COMMIT;"), pg_q(b"ROLLBACK")]), "any"
        while True:
            op = self.gen.op(self.model)
            if can(proto, op) and not (op.name == "raw" and not op.keys): return render(proto, op, r), "any"
    def read1(self, c, proto):
        if proto in ("resp", "inline"): return c.read(resp)
        if proto == "mc": return c.read(memcache)
        return c.until_ready()
    def batch(self, c, proto, k, hist):
        """k requests with their sentinels, pipelined; then the strict reading of the replies."""
        r, reqs, want, data = self.r, [], [], []
        for _ in range(k):
            q, kind = self.one(proto)
            s, u = self.sentinel(proto)
            reqs.append(q); want.append((kind, u)); data += [q, s]
        hist += reqs
        blob = b"".join(data)
        c.send(blob) if len(blob) < 100000 else self.trickle(c, blob)
        for q, (kind, u) in zip(reqs, want):
            try:
                got = []
                if kind != "none":
                    rep = self.read1(c, proto)
                    self.o["replies"] += 1
                    if proto[:2] == "pg":
                        self.pgcheck(proto, rep, q, hist)
                    elif rep == u:
                        self.fail(proto, f"no reply to {q!r:.300}", hist)
                    if kind == "err" and not is_err(proto, rep):
                        self.fail(proto, f"{q!r:.300} is not refused with one error line but answered {rep!r:.200}", hist)
                    self.o["kinds"].add((proto, q[:q.find(b" ")][:12] if proto == "mc" else 0, str(rep)[:14] if proto[:2] != "pg" else "".join(m[0] for m in rep)[:12]))
                rep = self.read1(c, proto)
                if u == "nomem":
                    rep2 = self.read1(c, proto)
                    if rep[0] == "line" and rep[1].startswith(b"VERSION ") and rep2 == ("values", []): rep = u
                if proto[:2] == "pg":
                    rep = [m[1] for m in rep if m[0] == "D"]
                    rep = rep[0][0] if rep and rep[0] else rep
                if rep != u:
                    self.fail(proto, f"after {'the reply to' if kind != 'none' else 'the silent request'} {q!r:.300} came {rep!r:.300} in place of the answer {u!r} to the next request", hist)
                self.o["reqs"] += 1
            except Bad as e:
                self.fail(proto, f"ill-formed reply to {q!r:.300} or to the request after it: {e}", hist)
            except (Closed, Timeout) as e:
                self.srv.check()
                self.fail(proto, f"no complete reply to {q!r:.300}: {type(e).__name__} {e}", hist)
    def trickle(self, c, blob):
        """Sends while replies pile up unread, then lets the reader run."""
        import threading
        t = threading.Thread(target=lambda: self._send(c, blob), daemon=True)
        t.start()
        time.sleep(.01)
    def _send(self, c, blob):
        try: c.s.sendall(blob)
        except OSError: pass
    def pgcheck(self, proto, msgs, q, hist):
        seq = "".join(m[0] for m in msgs)
        if seq.count("Z") != 1 or not seq.endswith("Z"): self.fail(proto, f"ready-for-query count in {seq} after {q!r:.300}", hist)
        if q[:1] == b"Q":
            ok = re.fullmatch(r"(TD*C|C|E|I)Z", seq)
        else:
            ok = re.fullmatch(r"1?2?(T?D*C)?E?Z", seq)
        if not ok: self.fail(proto, f"message sequence {seq} after {q!r:.300}", hist)
        if "T" in seq:
            nc = [len(m[1]) for m in msgs if m[0] == "T"][0]
            for m in msgs:
                if m[0] == "D" and len(m[1]) != nc: self.fail(proto, f"a row of {len(m[1])} columns under {nc} column names after {q!r:.300}", hist)

def frame_job(n, seconds, tag="c16"):
    r = rng(tag, n)
    t0 = time.time()
    o = {"reqs": 0, "replies": 0, "conns": 0, "closers": 0, "http": 0, "kinds": set(), "piled": 0, "before_end": 0}
    args = [[], ["--cas", "yes"], ["--maxmemory", "1", "--evict", "no"], ["--maxmemory", "1", "--sixpack", "no"], ["--queuesize", "1"], ["--auth", "pw"], [], ["--cas", "yes"]][n % 8]
    noauth = "--auth" in args
    with Server(args, threads=r.choice([1, 2, 4]), shards=r.choice([1, 4, 64])) as srv:
        srv.allow_escape = True      # SAVE TO may name any path; the shim refuses the ones outside
        F = Framer(srv, r, o)
        F.nomem = "no" in args
        F.model = Model(srv.ctl.boot, srv.ctl.real, "--cas" in args)
        F.gen = Gen(r, nkeys=12, maxlen=3000)
        while time.time() - t0 < seconds:
            proto = r.choice(["resp", "inline", "mc", "pgq", "pge", "http", "mc"])
            if proto == "http":
                http_one(F, r, o, srv, noauth)
                continue
            if noauth and proto == "mc":
                # memcache has no way to authenticate: one error per request
                c = Mc(srv.connect()); qs = [b"get k\r\n", b"set k 0 0 3\r\nabc\r\n", b"version\r\n", b"delete k\r\n", b"stats\r\n", b"flush_all\r\n", b"incr k 1\r\n", b"touch k 1\r\n", b"gets a b c\r\n", b"mn\r\n"]
                k = r.randrange(1, 20); qq = [r.choice(qs) for _ in range(k)]
                c.send(b"".join(qq)); c.s.shutdown(socket.SHUT_WR)
                out = c.read_eof(); p, rep = 0, []
                try:
                    while p < len(out):
                        x = memcache(out, p)
                        if x is None: raise Bad("incomplete reply")
                        rep.append(x[0]); p = x[1]
                except Bad as e: F.fail(proto, f"{e} in {out!r:.300}", qq)
                if len(rep) != k or not all(is_err("mc", x) for x in rep): F.fail(proto, f"{k} unauthenticated requests got {rep!r:.400}", qq)
                o["reqs"] += k; c.close()
                continue
            c = {"mc": Mc, "pgq": Pg, "pge": Pg}.get(proto, Resp)(srv.connect()); o["conns"] += 1
            hist = []
            try:
                if proto[:2] == "pg": c.start(b"pw" if noauth else None)
                elif noauth:
                    # refused requests first: one error each
                    k = r.randrange(0, 8)
                    if k and proto == "resp":
                        ws = [words(r) for _ in range(k)]
                        ws = [w for w in ws if w[0].upper() not in (b"AUTH",)]
                        c.send(b"".join(enc_resp(w) for w in ws))
                        for w in ws:
                            v = c.read(resp)
                            if v[0] != "-": F.fail(proto, f"unauthenticated {w!r:.200} was answered {v!r:.200}", [enc_resp(w)])
                            o["reqs"] += 1
                    c.send(enc_resp([b"AUTH", b"pw"]) if proto == "resp" else b"AUTH pw\r\n")
                    v = c.read(resp)
                    if v != ("+", b"OK"): F.fail(proto, f"AUTH after {k} refused requests was answered {v!r:.200}", hist)
                elif proto == "inline":
                    c.send(b"PING\r\n"); c.read(resp)
            except Bad as e: F.fail(proto, str(e), hist)
            for _ in range(r.choice([1, 3, 8])):
                if noauth and r.random() < .02: break
                F.batch(c, proto, r.choice([1, 1, 5, 30]), hist)
                if r.random() < .12 and proto == "resp":
                    # a pile of unread replies in front
                    v = r.randbytes(r.choice([3000, 100000]))
                    c.send(enc_resp([b"SET", b"pile", v])); c.read(resp)
                    m = r.randrange(20, 60)
                    F.trickle(c, enc_resp([b"ECHO", v]) * m)
                    for _ in range(m):
                        x = c.read(resp)
                        if x != ("$", v): F.fail(proto, f"ECHO of {len(v)} bytes answered {str(x)[:80]}", hist)
                    o["piled"] += m
                if len(hist) > 300: del hist[:150]
            x = r.random()
            try:
                # what was asked for before the end of the connection is answered, however much it is
                pre, wants = b"", []
                if r.random() < .5:
                    v = b"%d" % r.randrange(10 ** 6) * r.choice([1, 1, 20, 700])
                    m = r.choice([1, 3, 12])
                    if len(v) * m > 12000: m = 3
                    if proto == "mc" and not F.nomem:
                        pre = b"set zz 0 0 %d noreply\r\n%s\r\n" % (len(v), v) + b"get zz\r\n" * 12
                        wants = [("values", [(b"zz", 0, v, None)])] * 12
                    elif proto in ("resp", "inline"):
                        pre = (enc_resp([b"ECHO", v]) if proto == "resp" else b"ECHO " + v + b"\r\n") * m
                        wants = [("$", v)] * m
                    elif proto[:2] == "pg":
                        pre = pg_q(b"ECHO '" + v + b"'") * m
                        wants = [v] * m
                    o["before_end"] += len(wants)
                def answered():
                    for w in wants:
                        g = F.read1(c, proto)
                        if proto[:2] == "pg": g = [y[1] for y in g if y[0] == "D"]; g = g[0][0] if g and g[0] else g
                        if g != w: F.fail(proto, f"before the end of the connection: expected {str(w)[:100]}, got {str(g)[:200]}", hist)
                if x < .5 and proto in ("resp", "inline"):
                    bad = r.choice(RESPBAD if proto == "resp" else INLBAD)
                    hist.append(bad); c.send(pre + bad); answered()
                    if proto == "resp" or True: 
                        v = c.read(resp)
                        if v[0] != "-": F.fail(proto, f"malformed {bad!r} was answered {v!r}", hist)
                        rest = c.read_eof()
                        if rest: F.fail(proto, f"malformed {bad!r}: bytes {rest[:100]!r} after the error", hist)
                    o["closers"] += 1
                elif x < .6 and proto in ("resp", "inline"):
                    c.send(pre + (enc_resp([b"QUIT"]) if proto == "resp" else b"QUIT\r\n")); answered()
                    v = c.read(resp); rest = c.read_eof()
                    if v != ("+", b"OK") or rest: F.fail(proto, f"QUIT was answered {v!r} {rest[:80]!r}", hist)
                    o["closers"] += 1
                elif x < .5 and proto == "mc":
                    q, w = r.choice([(b"quit\r\n", 0), (b"set k 0 0 %d\r\n" % r.choice([600000000, 2 ** 40, 2 ** 62]), 1)])
                    hist.append(q); c.send(pre + q + (b"get zz\r\n" if w else b"")); answered()
                    rest = c.read_eof()
                    if w and not re.fullmatch(rb"(CLIENT_|SERVER_)?ERROR[ -~]*\r\n", rest) or not w and rest: F.fail(proto, f"{q!r} was answered {rest[:100]!r}", hist)
                    o["closers"] += 1
                elif x < .5:
                    c.send(pre + PG_X); answered(); rest = c.read_eof()
                    if rest: F.fail(proto, f"bytes {rest[:80]!r} after terminate", hist)
                    o["closers"] += 1
            except Bad as e: F.fail(proto, f"ill-formed reply: {e}", hist)
            except (Closed, Timeout) as e:
                srv.check(); F.fail(proto, f"no reply before the end of the connection: {type(e).__name__} {e}", hist)
            c.close()
            srv.check_log()
        srv.check()
    return o

def http_one(F, r, o, srv, noauth):
    x = r.random()
    a = b"pw" if noauth and r.random() < .7 else None
    k = r.choice([b"k%d" % r.randrange(5), b"a%20b", b"%0d%0aX:y", b"%00", b"%41", b"x" * r.choice([1, 250, 251, 4000]), b"k?zz=1", b"%0d%0a%0d%0aHTTP/1.1%20200%20OK"])
    v = r.choice(NASTY + [r.randbytes(r.choice([1, 100, 5000, 70000])), b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"])
    if x < .3: q = http_put(k, v, r.choice([b"", b"", b"?ttl=5"]) if b"?" not in k else b"", a)
    elif x < .6: q = http_get(k, a)
    elif x < .7: q = http_del(k, b"", a)
    elif x < .75: q = b"GET / HTTP/1.1\r\nHost: x\r\n\r\n"
    else: q = httpbad(r)
    tail = r.choice([b"", b"", b"", http_get(b"zz"), b"GET /", b"\r\n"]) 
    c = Conn(srv.connect()); o["conns"] += 1
    try:
        c.send(q + tail)
        rep = c.read(http)
        rest = c.read_eof()
        if rest: F.fail("http", f"bytes {rest[:120]!r} after the reply to {q!r:.300}", [q])
        if x >= .75 and not noauth and rep[1] < 400: F.fail("http", f"malformed {q!r:.300} was answered {rep!r:.200}", [q])
        o["kinds"].add(("http", rep[1], x >= .75)); o["reqs"] += 1; o["http"] += 1
        if x < .3 and rep[1] == 200 and len(k) < 250 and b"%" not in k and b"?" not in k:
            # the body ends where its length says, whatever follows it
            c.close()
            c = Conn(srv.connect()); o["conns"] += 1
            c.send(http_get(k, b"pw" if noauth else None))
            got = c.read(http)
            if got[1] == 200 and got[3] != v: F.fail("http", f"PUT of {len(v)} bytes, followed by {tail!r}, stored {got[3][:200]!r} ({len(got[3])} bytes)", [q + tail])
            if got[1] not in (200, 404): F.fail("http", f"GET after PUT was answered {got!r:.200}", [q + tail])
            o["reqs"] += 1
    except Bad as e: F.fail("http", f"ill-formed reply to {q!r:.300}: {e}", [q])
    except (Closed, Timeout) as e:
        srv.check(); F.fail("http", f"no reply to {q!r:.300}: {type(e).__name__} {e}", [q])
    c.close()
