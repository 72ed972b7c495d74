"""Hostile byte streams for every protocol."""
from session import *
from kv import *
import struct

NUMS = [b"0", b"-1", b"1", b"2147483647", b"2147483648", b"4294967295", b"4294967296", b"9223372036854775807", b"9223372036854775808", b"18446744073709551615",
        b"18446744073709551616", b"-9223372036854775808", b"00", b"-0", b"+1", b"1e3", b"", b" 1", b"1 ", b"0x1", b"99999999999999999999999", b"65535", b"65536", b"32767", b"32768", b"128", b"255", b"256"]
WORDS = [b"GET", b"SET", b"MGET", b"MGETS", b"DEL", b"EX", b"PX", b"EXAT", b"PXAT", b"NX", b"XX", b"KEEPTTL", b"CAS", b"FLAGS", b"GET", b"TTL", b"PTTL", b"EXPIRE", b"SETEX", b"DBSIZE",
         b"QUIT", b"ECHO", b"EXISTS", b"FLUSHALL", b"FLUSH", b"INCR", b"DECR", b"INCRBY", b"DECRBY", b"UINCRBY", b"APPEND", b"PREPEND", b"TOUCH", b"AUTH", b"SAVE", b"LOAD", b"STATS", b"PURGE",
         b"SWEEP", b"KEYS", b"SCAN", b"MATCH", b"COUNT", b"MONITOR", b"PING", b"SELECT", b"TYPE", b"TO", b"FROM", b"FAST", b"ASYNC", b"SYNC", b"BEGIN", b"COMMIT", b"ROLLBACK", b"DEBUG", b"DETACH",
         b"set", b"get", b"gets", b"gat", b"cas", b"add", b"replace", b"noreply", b"touch", b"incr", b"decr", b"delete", b"flush_all", b"version", b"verbosity", b"mg", b"ms", b"mn", b"me", b"stats", b"quit",
         b"$1", b"$2", b"$0", b"$65535", b"$65536", b"$-1", b"::bytea", b"::text", b"::int4", b"E'\\x41'", b"E'\\u0041'", b"E'\\U0001F600'", b"E'\\777'", b"''", b"'", b'"', b";", b"''''", b"\\", b"E'\\", b"E'\\u", b"E'\\x"]

def special(r):
    """Whole-cache and odd commands as an argument list."""
    f = lambda *a: [y if isinstance(y, bytes) else str(y).encode() for y in a]
    k = r.choice([b"k", b"k1", b"", b"\0", r.randbytes(r.randrange(40))])
    return r.choice([
        f("STATS"), f("SAVE"), f("SAVE", "TO", "a"), f("SAVE", "TO", "nodir/x", "FAST"), f("LOAD", "FROM", "a"), f("LOAD", "FROM", "/dev/null"), f("LOAD", "FROM", "nosuch"), f("LOAD"), f("FLUSHALL", "ASYNC"),
        f("FLUSH", "FAST"), f("SWEEP"), f("SWEEP", "ASYNC", "FAST"), f("PURGE"), f("PURGE", "ASYNC"), f("KEYS", r.choice([b"*", b"k*", b"\\", b"*\\", b"?*?", k])), f("SCAN", r.choice(NUMS), "COUNT", r.choice(NUMS)),
        f("SCAN", r.randrange(2 ** 64), "MATCH", k, "TYPE", k), f("MONITOR"), f("QUIT"), f("AUTH", k), f("AUTH", k, k), f("AUTH", "pw"), f("SELECT", r.choice(NUMS)), f("DEBUG", r.choice([b"x", b"detach", b""])),
        f("DEBUG", "POPULATE", 10, "k", 5), f("DEBUG", "POPULATE", 3, k, 40, "1-9"), f("DEBUG", "POPULATE", 1, "k", 1, r.choice([b"9-1", b"-", b"1-", b"-1", b"0-0", b"1-99999999999999999999", k])),
        f("DBSIZE"), f("TYPE", k), f("COMMAND"), f("CLIENT", "SETNAME", k), f("CONFIG", "GET", "*"), f("HELLO", "3"), f("BEGIN"), f("SELECT"), f("ECHO", k), f(k), f(k, k), f(r.choice(WORDS), k, r.choice(WORDS), r.choice(NUMS)),
        f("SET", k, "v" * r.randrange(10), r.choice(["EX", "PX", "EXAT", "PXAT", "FLAGS", "CAS"]), r.choice(NUMS)), f("SETEX", k, r.choice(NUMS), k), f("EXPIRE", k, r.choice(NUMS)),
        f("INCRBY", k, r.choice(NUMS)), f("UINCRBY", k, r.choice(NUMS)), f("MGETS", *[k] * r.randrange(1, 300)), f("DEL", *[k] * r.randrange(1, 5)), f("GET", k, k), f("SET", k), f("SET")])

def mcspecial(r):
    k = r.choice([b"k", b"k1", b"x" * 250, b"x" * 251, b"\0", b"a\tb"])
    n = r.choice(NUMS)
    return r.choice([
        b"set %s %s %s %s\r\nabc\r\n" % (k, r.choice(NUMS), r.choice(NUMS), r.choice(NUMS)), b"set %s 0 0 3\r\nabc\r\n" % k, b"set %s 0 0 3\r\nabcd\r\n" % k, b"set %s 0 0 3 noreply\r\nabc\r\n" % k,
        b"cas %s 0 0 1 %s\r\nx\r\n" % (k, n), b"cas %s 0 0 1 %s noreply\r\nx\r\n" % (k, n), b"cas k 0 0 1\r\nx\r\n", b"add k\r\n", b"append k 0 0\r\n", b"get\r\n", b"gets " + b" ".join([k] * r.randrange(1, 200)) + b"\r\n",
        b"gat 10 k\r\n", b"gats 10 k\r\n", b"touch k %s\r\n" % n, b"touch k\r\n", b"incr k %s\r\n" % n, b"decr k %s noreply\r\n" % n, b"incr k\r\n", b"delete k 0\r\n", b"delete k noreply\r\n", b"delete\r\n", b"flush_all %s\r\n" % r.choice([b"0", b"x", b"noreply"]),
        b"flush_all noreply\r\n", b"verbosity 1\r\n", b"verbosity\r\n", b"verbosity x y z\r\n", b"version\r\n", b"version x\r\n", b"stats\r\n", b"stats items\r\n", b"mn\r\n", b"me k\r\n", b"mg k v\r\n", b"ms k 3\r\nabc\r\n", b"\r\n", b" \r\n", b"  get   k  \r\n",
        b"quit\r\n", b"shutdown\r\n", b"get %s\n" % k, b"set a 0 0 70000\r\n" + b"y" * 70000 + b"\r\n", b"watch\r\n", b"cache_memlimit 1\r\n", b"x" * r.choice([2047, 2048, 2049, 5000]) + b"\r\n"])

def httpspecial(r):
    k = r.choice([b"k", b"", b"%41", b"%", b"%4", b"%zz", b"%00", b"a%20b", b"x" * r.choice([1, 100, 5000]), b"k?", b"k?x=1", b"k?ttl=", b"k&", b"?", b"//", b"/../x", b"+", b"k?ttl=%s" % r.choice(NUMS), b"k?cas=%s&flags=%s&nx=1&xx=" % (r.choice(NUMS), r.choice(NUMS)), b"k?auth=pw", b"k?auth="])
    m = r.choice([b"GET", b"PUT", b"DELETE", b"POST", b"HEAD", b"OPTIONS", b"PATCH", b"X", b"", b"get"])
    v = r.choice([b"HTTP/1.1", b"HTTP/1.0", b"HTTP/2.0", b"HTTP/9.9", b"HTTP/", b"HTTP/1.1 "])
    hs = r.sample([b"Host: x", b"Content-Length: %s" % r.choice(NUMS), b"Content-Length: 3", b"Content-Length: 3", b"Transfer-Encoding: chunked", b"Authorization: Bearer pw", b"Authorization: Bearer", b"Authorization: Basic x",
                   b"Authorization:", b"Connection: keep-alive", b"Expect: 100-continue", b"X: " + b"y" * r.choice([10, 5000]), b"NoColon", b": empty", b"", b" folded", b"Content-Type: a/b", b"content-length: 2"], r.randrange(5))
    nl = r.choice([b"\r\n"] * 9 + [b"\n"])
    return m + b" /" + k + b" " + v + nl + b"".join(h + nl for h in hs) + nl + r.choice([b"", b"abc", b"abcdef", r.randbytes(100)])

def pgspecial(r):
    i16 = lambda: struct.pack(">h", r.choice([0, 1, 2, -1, 32767, -32768, 3]))
    i32 = lambda: struct.pack(">i", r.choice([0, 1, 4, -1, 5, 2 ** 31 - 1, -2 ** 31, 100, 70000]))
    z = lambda: r.choice([b"\0", b"a\0", b"s1\0", b"", b"p" * 100 + b"\0"])
    sql = lambda: r.choice([b"", b" ", b";", b";;", b"GET k", b"SET k v;", b"SET $1 $2", b"GET $1;GET $2", b"SET k E'\\u00e9\\x41\\101\\n'", b"MGETS $1 $2 $3", b"SET k $1::bytea", b"GET 'a''b'", b"GET \"k\"", b"GET 'k", b"-- c", b"/* c */ GET k",
                           b"BEGIN", b"COMMIT", b"SELECT 1", b"SELECT", b"STATS", b"KEYS *", b"SCAN 0", b"GET $1 $1 $1", b"GET $99999999999", b"GET $", b"$1", b"MONITOR", b"QUIT", b" ".join(r.choice(WORDS) for _ in range(r.randrange(1, 8))),
                           b"SET k v " + r.choice(WORDS) + b" " + r.choice(NUMS)])
    m = r.randrange(12)
    if m == 0: return pg_q(sql())
    if m == 1: return pg_parse(sql(), r.choice([b"", b"s1"]), r.choice([(), (17,), (25, 17), (0,) * 5])) + pg_bind([r.choice([None, b"", b"k", r.randbytes(5)]) for _ in range(r.randrange(4))], r.choice([b"", b"p1"]), r.choice([b"", b"s1"]), r.choice([(), (0,), (1,), (1, 0), (5,)]), r.choice([(), (1,), (0, 1)])) + pg_exec(r.choice([b"", b"p1"])) + PG_SYNC
    if m == 2: return pg_desc(r.choice([b"S", b"P", b"X", b""]), r.choice([b"", b"s1", b"nope"])) + PG_SYNC
    if m == 3: return pg_m(b"B", z() + z() + i16() + i16() + i16() + i32() + i16())
    if m == 4: return pg_m(b"P", z() + sql() + r.choice([b"\0", b""]) + i16() + i32())
    if m == 5: return pg_m(b"E", z() + i32())
    if m == 6: return pg_m(b"C", r.choice([b"S", b"P", b""]) + z())
    if m == 7: return pg_m(r.choice([b"H", b"S", b"X", b"F", b"d", b"c", b"f", b"p", b"\0", b"z", b"\xff"]), r.choice([b"", b"\0", b"pw\0", b"x" * 50]))
    if m == 8: return bytes([r.choice(b"QPBEDSCHXFp")]) + i32() + r.randbytes(r.randrange(20))
    if m == 9: return pg_startup(user="u", database=b"d" * r.randrange(300))
    if m == 10: return r.choice([struct.pack(">ii", 8, 80877103), struct.pack(">ii", 8, 80877104), struct.pack(">iiii", 16, 80877102, 1, 2), struct.pack(">ii", 7, 196608), struct.pack(">ii", 4, 0), struct.pack(">ii", 9, 196608) + b"\0", struct.pack(">ii", 12, 196608) + b"user"])
    return b"".join(pg_parse(sql()) + pg_bind([b"k"] * r.randrange(3)) + pg_exec() for _ in range(3)) + PG_SYNC

def base_stream(r, gen, model, proto):
    out = []
    if proto in ("pgq", "pge"):
        if r.random() < .93: out.append(pg_startup(user="u", database="d"))
        if r.random() < .3: out.append(pg_m(b"p", r.choice([b"pw", b"x", b""]) + b"\0"))
    elif proto == "http":
        if r.random() < .75: return [httpspecial(r)]
        while True:
            op = gen.op(model)
            if can("http", op): return [render("http", op, r)]
    elif proto == "inline":
        out.append(b"PING\r\n")
    if proto in ("resp", "inline") and r.random() < .5:
        out.append(enc_resp([b"AUTH", b"pw"]) if proto == "resp" else b"AUTH pw\r\n")
    for _ in range(r.choice([1, 2, 3, 6, 15])):
        if r.random() < .4:
            if proto == "mc": out.append(mcspecial(r))
            elif proto[:2] == "pg": out.append(pgspecial(r))
            else: out.append(enc_resp(special(r)) if proto == "resp" else enc_inline(special(r), r))
        else:
            op = gen.op(model)
            if can(proto, op): out.append(render(proto, op, r))
    return out

def mutate(r, parts):
    """Mutates a list of requests into one byte string."""
    parts = list(parts)
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        x = r.random()
        i = r.randrange(len(parts)) if parts else 0
        if not parts: break
        if x < .15: parts.pop(i)
        elif x < .3: parts.insert(r.randrange(len(parts) + 1), parts[i])
        elif x < .4: r.shuffle(parts)
        else:
            b = bytearray(parts[i])
            for _ in range(r.choice([1, 1, 1, 2, 5])):
                if not b: break
                p = r.randrange(len(b)); y = r.random()
                if y < .2: b[p] ^= 1 << r.randrange(8)
                elif y < .3: b[p] = r.choice([0, 255, 10, 13, 32, 34, 39, 92, 36, 42, 45, 48, 57, 127, 128])
                elif y < .4: del b[p:p + r.choice([1, 1, 2, 4, 30])]
                elif y < .5: b[p:p] = r.choice([b"\r\n", b"\n", b"\0", b" ", b"'", b'"', b"$", b"*", b"-", b"%", r.randbytes(r.randrange(8))])
                elif y < .65:
                    # a run of digits becomes another number
                    q = p
                    while q < len(b) and not 48 <= b[q] <= 57: q += 1
                    e = q
                    while e < len(b) and 48 <= b[e] <= 57: e += 1
                    if e > q: b[q:e] = r.choice(NUMS) if r.random() < .6 else b"%d" % (int(b[q:e][:15] or b"0") + r.choice([-1, 1, 2, -2]))
                elif y < .75: b[p:p] = r.choice(WORDS)
                elif y < .85: del b[p:]
                elif y < .92:
                    # big-endian length fields
                    if p + 4 <= len(b):
                        v = struct.unpack(">i", b[p:p + 4])[0]
                        b[p:p + 4] = struct.pack(">i", r.choice([v + 1, v - 1, 0, -1, 4, 3, 2 ** 31 - 1, -2 ** 31]) & 0x7fffffff if r.random() < .8 and -2 ** 30 < v < 2 ** 30 else -1)
                else:
                    q = r.randrange(len(b)); n = r.randrange(1, 30)
                    b[p:p] = b[q:q + n]
            parts[i] = bytes(b)
    s = b"".join(parts)
    if r.random() < .08: s = s[:r.randrange(len(s) + 1)]
    if r.random() < .03: s = r.randbytes(r.randrange(1, 60)) + s
    return s

_BIG = re.compile(rb"(?i)populate\W+(?:\$\d+\W+)?\d{4,}|delay")
def tame(s):
    """Requests that legitimately take very long or very much memory are left out."""
    if _BIG.search(s): return False
    t = s.lower()
    if b"populate" in t:
        return all(len(x) < 4 for x in re.findall(rb"\d+", t[t.find(b"populate"):])[:12])
    return True
import re

PROT6 = ["resp", "inline", "mc", "http", "pgq", "pge"]
def fuzz_job(n, seconds, san, tag="c13"):
    r = rng(tag, n, san)
    t0 = time.time()
    o = {"streams": 0, "bytes": 0, "replies": 0, "unclosed": 0, "kinds": set(), "errors": 0, "probes": 0, "why": ""}
    model = Model(BOOT0, REAL0, True)
    model.d = {}
    auth = n % 3 == 1
    args = ["--cas", "yes"] * (n % 2) + (["--auth", "pw"] if auth else []) + r.choice([[], ["--sixpack", "no"], ["--maxmemory", "1"], ["--maxmemory", "1", "--evict", "no"]]) + r.choice([[], ["--queuesize", "1"], ["-vvv"]])
    canary = b"CaNaRy%s" % r.randbytes(6).hex().encode()
    with Server(args, san=san, shards=r.choice([1, 4, 64]), threads=r.choice([1, 2, 4]), env={"SECRETENV": canary.decode()}) as srv:
        srv.allow_escape = True      # SAVE TO may name any path; the shim refuses the ones outside
        def observer():
            c = Resp(srv.connect())
            if auth: c.cmd("AUTH", "pw")
            return c
        obs = observer()
        secret = b"SeCrEt%s" % r.randbytes(6).hex().encode()
        gen = Gen(r, nkeys=25, maxlen=20000)
        recent, open_ = [], []
        def fail(key, msg):
            raise Violation(key, msg, {"argv": srv.argv, "streams": [x.hex() for x in recent[-80:]]})
        def probe():
            x = canary + r.randbytes(r.choice([1, 100, 5000])).hex().encode()
            try:
                v = obs.cmd("ECHO", x)
                if v != ("$", x): fail("fuzz:other", f"another client's ECHO answered {v!r:.200}")
                if r.random() < .3:
                    obs.cmd("NOSUCH" , x)
                    obs.cmd("SET", secret + b"key%d" % r.randrange(5), secret * r.choice([1, 50]))
                    m = Mc(srv.connect()); m.send(b"get %s\r\n" % x[:200])
                    m.read(memcache); m.close()
            except (Closed, Timeout) as e:
                srv.check()
                fail("fuzz:observer", f"a well-behaved client lost service: {type(e).__name__} {e}")
            srv.check_log()
            o["probes"] += 1
        def drain(s, stream, proto):
            buf = bytearray()
            s.settimeout(15)
            try:
                while len(buf) < 30000000:
                    x = s.recv(1 << 18)
                    if not x: break
                    buf += x
            except (socket.timeout):
                o["unclosed"] += 1
                o["why"] = f"{proto} {stream[:300]!r}"
                probe()
            except OSError:
                pass
            s.close()
            o["replies"] += len(buf)
            low = stream.lower()
            if canary in buf and b"monitor" not in low and canary not in stream:
                i = buf.find(canary)
                fail("fuzz:leak", f"a reply contains bytes of another client: {bytes(buf[max(0, i - 100):i + 100])!r} stream {stream[:500]!r}")
            if auth and b"pw" not in stream and secret in buf:
                fail("fuzz:secret", f"an unauthenticated client read stored data: stream {stream[:500]!r}")
            o["kinds"].add((proto, len(buf).bit_length(), bytes(buf[:1]), bytes(buf[-20:-2]) if len(buf) < 200 else b""))
        while time.time() - t0 < seconds:
            proto = r.choice(PROT6)
            stream = mutate(r, base_stream(r, gen, model, proto))
            if not tame(stream): continue
            recent.append(stream)
            if len(recent) > 200: del recent[:100]
            try:
                s = srv.connect(timeout=15)
            except OSError as e:
                srv.check()
                fail("fuzz:connect", f"the server takes no connections: {e}")
            s.setblocking(False)
            try:
                if r.random() < .5 or len(stream) < 2:
                    s.send(stream)
                else:
                    cuts = sorted(r.randrange(1, len(stream)) for _ in range(r.randrange(1, 5)))
                    for a, b in zip([0] + cuts, cuts + [len(stream)]):
                        if s.send(stream[a:b]) < b - a: break
                        if r.random() < .3: time.sleep(.0003)
                if r.random() < .95: s.shutdown(socket.SHUT_WR)
                else: s.close(); s = None
            except (BlockingIOError, OSError):
                try: s.shutdown(socket.SHUT_WR)
                except OSError: pass
            o["streams"] += 1; o["bytes"] += len(stream)
            if s: open_.append((s, stream, proto))
            if len(open_) > r.choice([1, 4, 16]):
                drain(*open_.pop(0))
            if o["streams"] % 40 == 0:
                probe()
        for x in open_: drain(*x)
        probe(); obs.close()
        # nothing of the hostile streams stays behind
        srv.check()
    return o
import socket

def stale_requests(r, proto, key, val):
    """A request (prefix sent before it, the request, what may follow it) that stores val under key, or names val."""
    if proto == "resp":
        return b"", r.choice([enc_resp([b"SET", key, val]), enc_resp([b"SET", key, val, b"EX", b"100"]), enc_resp([b"ECHO", val]), enc_resp([b"APPEND", key, val]), enc_resp([b"SETEX", key, b"100", val])]), b""
    if proto == "inline":
        return b"PING\r\n", r.choice([b"SET %s %s\r\n" % (key, val), b"ECHO %s\r\n" % val, b"SET '%s' \"%s\"\r\n" % (key, val), b"*2\r\n$4\r\nECHO\r\n$%d\r\n%s\r\n" % (len(val), val)]), b""
    if proto == "mc":
        return r.choice([b"", b"version\r\n"]), r.choice([b"set %s 0 0 %d\r\n%s\r\n", b"add %s 0 0 %d\r\n%s\r\n"]) % (key, len(val), val), b""
    if proto == "http":
        h = b"PUT /%s HTTP/1.1\r\n" % key
        return b"", r.choice([http_put(key, val), h + b"Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n" % (len(val), val), b"GET /%s?x=%s HTTP/1.1\r\n\r\n" % (key, val)]), b""
    pre = pg_startup(user="u", database="d")
    m = r.randrange(5)
    if m == 0: return pre, pg_q(b"SET %s %s" % (key, val)), b""
    if m == 1: return pre, pg_q(b"ECHO '%s'" % val), b""
    if m == 2: return pre, pg_parse(b"SET %s %s" % (key, val), b"s"), pg_bind((), b"", b"s") + pg_exec() + PG_SYNC
    if m == 3: return pre + pg_parse(b"SET $1 $2", b"s"), pg_bind((key, val), b"p", b"s"), pg_exec(b"p") + PG_SYNC
    return pre + pg_parse(b"ECHO $1", b"s"), pg_bind((val,), b"p", b"s"), pg_exec(b"p") + PG_SYNC

def stale_job(n, seconds, san, tag="c13s"):
    """What one connection sent must not become part of what the next one sent, however short or dishonest that is: the next one sends the same
    stream, cut or with a wrong length, and the bytes it left out must neither take effect nor come back."""
    r = rng(tag, n, san)
    t0 = time.time()
    o = {"streams": 0, "kinds": set()}
    with Server(["--cas", "no"] + r.choice([[], ["--queuesize", "1"]]), san=san, shards=4, threads=1) as srv:
        adm = Resp(srv.connect())
        k = 0
        while time.time() - t0 < seconds:
            k += 1
            proto = PROT6[k % 6]
            pg = proto[:2] == "pg"
            key, val = b"K%sK" % r.randbytes(5).hex().encode(), b"V%sV" % r.randbytes(6).hex().encode()
            pre, req, post = stale_requests(r, proto, key, val)
            s = srv.connect(timeout=20)
            s.sendall(pre + req + post)
            s.shutdown(socket.SHUT_WR)
            while s.recv(1 << 16): pass
            s.close()
            adm.cmd("DEL", key)
            # the cut version
            w = req.rfind(val)            # everything from here on is left out
            cut = r.choice([w, w, r.randrange(1, w + 1), 5 if pg else w])
            body, how = req[:cut], "cut"
            if pg:
                x = r.random()
                if x < .8:
                    L = r.choice([0, 0, 1, 2, 3, 4, 5, -1, -2 ** 31, cut - 1, cut - 1, cut - 1, cut - 2, r.randrange(-5, cut)])
                    L = max(-2 ** 31, L)
                    body, how = body[:1] + struct.pack(">i", L) + body[5:], f"length {L}" if L < 5 else "length"
                    if r.random() < .5: body = body[:max(5, L + 1)]
            elif r.random() < .4:
                # a length that says less than what the request needs
                body = body.replace(b"%d" % len(val), r.choice([b"0", b"-1", b"1", b"00", b""]), 1); how = "length"
            s = srv.connect(timeout=20)
            got = bytearray()
            def more(t):
                s.settimeout(t)
                try:
                    while True:
                        x = s.recv(1 << 16)
                        if not x: return False
                        got.extend(x)
                except socket.timeout: return True
                except OSError: return False
            try:
                s.sendall(pre + body)
                adm.cmd("PING"); adm.cmd("PING")
                up = more(.002)
                if up and r.random() < .5:
                    s.sendall(post if r.random() < .7 else req[:w])
                    adm.cmd("PING"); adm.cmd("PING")
                    up = more(.002)
                if up:
                    s.shutdown(socket.SHUT_WR)
                    more(10)
            except OSError: pass
            s.close()
            o["streams"] += 1
            o["kinds"].add((proto, how, bytes(req[:1]), bool(got)))
            v = adm.cmd("GET", key)
            srv.check_log()
            rp = {"argv": srv.argv, "first": (pre + req + post).hex(), "second": (pre + body).hex()}
            if v[0] == "$" and v[1] is not None and val in v[1]:
                raise Violation("stale:effect", f"{proto}: a connection that sent only {pre + body!r} stored {val!r}, which another connection had sent before", rp)
            if val in got:
                raise Violation("stale:leak", f"{proto}: a connection that sent only {pre + body!r} received {bytes(got[-300:])!r}: {val!r} is another connection's", rp)
        srv.check()
    return o
