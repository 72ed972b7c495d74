"""Strict protocol encoders and parsers, and blocking clients."""
import os, select, socket, struct, time
from common import Violation, HarnessError

class Closed(Exception):
    pass
class Timeout(Exception):
    pass
class Bad(Exception):
    """The bytes are not a reply of the protocol."""

NULL = ("null",)

# ---------------------------------------------------------------- parsers
# Each takes (buf, pos) and returns (value, newpos), None when incomplete, or raises Bad.
def _line(b, p, maxlen=None):
    i = b.find(b"\n", p)
    if i < 0:
        return None
    if i == p or b[i - 1] != 13:
        raise Bad(f"line not ended by CRLF: {bytes(b[p:i + 1])[:80]!r}")
    l = bytes(b[p:i - 1])
    if b"\r" in l:
        raise Bad(f"CR inside a line: {l[:80]!r}")
    return l, i + 1

def _canon_int(s, signed=True):
    t = s[1:] if signed and s[:1] == b"-" else s
    if not t.isdigit() or (len(t) > 1 and t[:1] == b"0") or s == b"-0":
        raise Bad(f"number {s[:40]!r}")
    return int(s)

def resp(b, p):
    if p >= len(b):
        return None
    k = b[p:p + 1]
    if k not in b"+-:$*":
        raise Bad(f"reply starts with {bytes(b[p:p + 40])!r}")
    r = _line(b, p + 1)
    if r is None:
        return None
    l, p = r
    if k == b"+" or k == b"-":
        if any(c < 32 for c in l):
            raise Bad(f"control byte in simple reply {l[:80]!r}")
        return (k.decode(), l), p
    n = _canon_int(l)
    if k == b":":
        return (":", n), p
    if n == -1:
        return NULL, p
    if n < 0:
        raise Bad(f"length {n}")
    if k == b"$":
        if len(b) < p + n + 2:
            return None
        if b[p + n:p + n + 2] != b"\r\n":
            raise Bad(f"bulk of length {n} not followed by CRLF: {bytes(b[p + n:p + n + 20])!r}")
        return ("$", bytes(b[p:p + n])), p + n + 2
    out = []
    for _ in range(n):
        r = resp(b, p)
        if r is None:
            return None
        out.append(r[0]); p = r[1]
    return ("*", out), p

def memcache(b, p):
    """One memcache reply: ('line', bytes) | ('values', [...]) | ('stats', [...])."""
    r = _line(b, p)
    if r is None:
        return None
    l, q = r
    if l == b"END" or l.startswith(b"VALUE "):
        vals = []
        while l != b"END":
            f = l.split(b" ")
            if f[0] != b"VALUE" or len(f) not in (4, 5):
                raise Bad(f"in a get reply: {l[:80]!r}")
            n = _canon_int(f[3], False)
            if len(b) < q + n + 2:
                return None
            if b[q + n:q + n + 2] != b"\r\n":
                raise Bad(f"data block of length {n} not followed by CRLF")
            vals.append((f[1], _canon_int(f[2], False), bytes(b[q:q + n]), _canon_int(f[4], False) if len(f) == 5 else None))
            r = _line(b, q + n + 2)
            if r is None:
                return None
            l, q = r
        return ("values", vals), q
    if l.startswith(b"STAT "):
        st = []
        while l != b"END":
            if not l.startswith(b"STAT "):
                raise Bad(f"in a stats reply: {l[:80]!r}")
            f = l[5:].split(b" ", 1)
            st.append((f[0], f[1] if len(f) > 1 else b""))
            r = _line(b, q)
            if r is None:
                return None
            l, q = r
        return ("stats", st), q
    return ("line", l), q

def http(b, p):
    i = b.find(b"\r\n\r\n", p)
    if i < 0:
        return None
    lines = bytes(b[p:i]).split(b"\r\n")
    f = lines[0].split(b" ", 2)
    if len(f) != 3 or f[0] != b"HTTP/1.1" or not (f[1].isdigit() and len(f[1]) == 3):
        raise Bad(f"status line {lines[0][:80]!r}")
    hd = {}
    for l in lines[1:]:
        k, s, v = l.partition(b": ")
        if not s or k.lower() in hd or b"\n" in l or b"\r" in l:
            raise Bad(f"header {l[:80]!r}")
        hd[k.lower()] = v
    if b"content-length" not in hd:
        raise Bad("no content length")
    n = _canon_int(hd[b"content-length"], False)
    if len(b) < i + 4 + n:
        return None
    return ("http", int(f[1]), f[2], bytes(b[i + 4:i + 4 + n])), i + 4 + n

PGTYPES = b"RSZETDCI12tnKNAsG3vW"
def pgmsg(b, p):
    if len(b) < p + 5:
        if len(b) > p and b[p:p + 1] not in [bytes([c]) for c in PGTYPES]:
            raise Bad(f"postgres message starts with {bytes(b[p:p + 20])!r}")
        return None
    t = b[p:p + 1]
    if t not in [bytes([c]) for c in PGTYPES]:
        raise Bad(f"postgres message starts with {bytes(b[p:p + 20])!r}")
    n = struct.unpack(">i", b[p + 1:p + 5])[0]
    if n < 4:
        raise Bad(f"postgres message length {n}")
    if len(b) < p + 1 + n:
        return None
    body = bytes(b[p + 5:p + 1 + n])
    return (t.decode(), pg_decode(t, body)), p + 1 + n

def pg_decode(t, d):
    try:
        if t == b"D":
            n = struct.unpack(">h", d[:2])[0]
            p, cols = 2, []
            for _ in range(n):
                l = struct.unpack(">i", d[p:p + 4])[0]
                p += 4
                if l == -1:
                    cols.append(None)
                    continue
                if l < 0 or p + l > len(d):
                    raise Bad("column length")
                cols.append(d[p:p + l]); p += l
            if p != len(d):
                raise Bad(f"{len(d) - p} stray bytes in a data row")
            return cols
        if t == b"T":
            n = struct.unpack(">h", d[:2])[0]
            p, cols = 2, []
            for _ in range(n):
                z = d.index(b"\0", p)
                oid = struct.unpack(">ihihih", d[z + 1:z + 19])[2]
                cols.append((d[p:z], oid)); p = z + 19
            if p != len(d):
                raise Bad("stray bytes in a row description")
            return cols
        if t == b"C":
            if d.index(b"\0") != len(d) - 1:
                raise Bad("command tag")
            return d[:-1]
        if t == b"E":
            out, p = {}, 0
            while d[p:p + 1] != b"\0":
                z = d.index(b"\0", p + 1)
                out[d[p:p + 1]] = d[p + 1:z]; p = z + 1
            if p + 1 != len(d):
                raise Bad("stray bytes in an error")
            return out.get(b"M")
        if t == b"Z":
            if len(d) != 1:
                raise Bad("ready message")
            return d
        if t == b"R":
            return struct.unpack(">i", d)[0]
        if t == b"S":
            k, v, e = d.split(b"\0")
            if e:
                raise Bad("parameter status")
            return (k, v)
        if t == b"t":
            n = struct.unpack(">H", d[:2])[0]
            return list(struct.unpack(f">{n}i", d[2:]))
        if t in (b"1", b"2", b"I", b"3", b"n"):
            if d:
                raise Bad("body in " + t.decode())
            return None
    except (struct.error, ValueError, IndexError) as e:
        raise Bad(f"postgres message {t!r} body {d[:60]!r}: {e}")
    return d

# ---------------------------------------------------------------- encoders
def enc_resp(args):
    o = [b"*%d\r\n" % len(args)]
    for a in args:
        o.append(b"$%d\r\n%s\r\n" % (len(a), a))
    return b"".join(o)

def quotable_telnet(a):
    return True
def enc_inline(args, r=None):
    """Inline (telnet) command: quoted wherever needed. The first byte must be A-Z."""
    o = []
    for i, a in enumerate(args):
        plain = a and not any(c <= 32 or c in b"\"'\\" or c >= 0x7f for c in a)
        if plain and (i == 0 or r is None or r.random() < .6):
            o.append(a)
        else:
            q = b'"' if r is None or r.random() < .5 else b"'"
            x = a.replace(b"\\", b"\\\\").replace(b"\n", b"\\n").replace(b"\r", b"\\r").replace(q, b"\\" + q)
            if r is not None and r.random() < .5: x = x.replace(b"\t", b"\\t")
            o.append(q + x + q)
    return b" ".join(o) + b"\r\n"

def pg_startup(**params):
    d = struct.pack(">i", 0x30000)
    for k, v in (params or {"user": "u"}).items():
        d += k.encode() + b"\0" + (v if isinstance(v, bytes) else v.encode()) + b"\0"
    d += b"\0"
    return struct.pack(">i", len(d) + 4) + d
def pg_m(t, d=b""):
    return t + struct.pack(">i", len(d) + 4) + d
def pg_q(sql):
    return pg_m(b"Q", sql + b"\0")
def pg_parse(sql, name=b"", oids=()):
    return pg_m(b"P", name + b"\0" + sql + b"\0" + struct.pack(">h", len(oids)) + b"".join(struct.pack(">i", o) for o in oids))
def pg_bind(params, portal=b"", stmt=b"", formats=(), rformats=()):
    d = portal + b"\0" + stmt + b"\0" + struct.pack(">h", len(formats)) + b"".join(struct.pack(">h", f) for f in formats)
    d += struct.pack(">H", len(params))
    for x in params:
        d += struct.pack(">i", -1) if x is None else struct.pack(">i", len(x)) + x
    d += struct.pack(">h", len(rformats)) + b"".join(struct.pack(">h", f) for f in rformats)
    return pg_m(b"B", d)
def pg_exec(portal=b""):
    return pg_m(b"E", portal + b"\0" + struct.pack(">i", 0))
def pg_desc(kind, name=b""):
    return pg_m(b"D", kind + name + b"\0")
PG_SYNC = pg_m(b"S")
PG_X = pg_m(b"X")
def pg_lit(a):
    """A quoted literal; a must not contain NUL."""
    return b"'" + a.replace(b"'", b"''") + b"'"
def pg_elit(a):
    o = bytearray(b"E'")
    for c in a:
        if c in b"\\'":
            o += b"\\" + bytes([c])
        elif c == 10: o += b"\\n"
        elif c == 13: o += b"\\r"
        elif c == 9: o += b"\\t"
        else: o.append(c)
    return bytes(o) + b"'"

# ---------------------------------------------------------------- client
class Conn:
    def __init__(self, sock, timeout=40):
        self.s = sock
        self.s.settimeout(timeout)
        self.buf = bytearray()
        self.pos = 0
        self.sent = 0
    def send(self, data):
        """Writes everything; once stuck, takes in what arrives: a peer need not read on while its replies pile up."""
        wait = self.s.gettimeout()
        if wait is None: wait = 1e9
        pos, eof, stuck = 0, False, time.monotonic()
        view = memoryview(data)
        try:
            fd = self.s.fileno()        # non-blocking beneath a timeout
            while pos < len(data):
                try:
                    pos += os.write(fd, view[pos:])
                    stuck = time.monotonic()
                    continue
                except (BlockingIOError, InterruptedError):
                    pass
                t = time.monotonic() - stuck
                if t >= wait: raise Timeout("send")
                p = select.poll()
                p.register(fd, select.POLLOUT | (select.POLLIN if t >= .5 and not eof else 0))
                for _, e in p.poll(250 if t < .5 else min(2000, (wait - t) * 1000 + 1)):
                    if e & select.POLLIN and not e & select.POLLOUT:
                        d = os.read(fd, 1 << 20)
                        if not d: eof = True
                        else: self.buf += d
        except (BrokenPipeError, ConnectionResetError, OSError) as e:
            raise Closed(f"send: {e}")
        self.sent += len(data)
    def fill(self):
        try:
            d = self.s.recv(1 << 20)
        except socket.timeout:
            raise Timeout(f"no reply; pending bytes {bytes(self.buf[self.pos:self.pos + 80])!r}")
        except (ConnectionResetError, OSError) as e:
            raise Closed(str(e))
        if not d:
            raise Closed(f"closed with pending bytes {bytes(self.buf[self.pos:self.pos + 80])!r}")
        if self.pos > (1 << 20):
            del self.buf[:self.pos]
            self.pos = 0
        self.buf += d
    def read(self, parser):
        while True:
            r = parser(self.buf, self.pos)
            if r is not None:
                self.pos = r[1]
                if self.pos == len(self.buf):
                    self.buf = bytearray(); self.pos = 0
                return r[0]
            self.fill()
    def pending(self):
        return bytes(self.buf[self.pos:])
    def read_eof(self):
        """Reads to the end of the stream and returns everything unread."""
        try:
            while True:
                self.fill()
        except Closed:
            return bytes(self.buf[self.pos:])
    def quiet(self, t=0.05):
        """True when nothing arrives for t seconds."""
        if self.pending():
            return False
        o = self.s.gettimeout()
        self.s.settimeout(t)
        try:
            d = self.s.recv(65536)
            self.buf += d
            return False
        except socket.timeout:
            return True
        except OSError:
            return True
        finally:
            self.s.settimeout(o)
    def close(self):
        try:
            self.s.close()
        except Exception:
            pass

class Resp(Conn):
    def cmd(self, *args):
        self.send(enc_resp([a if isinstance(a, bytes) else str(a).encode() for a in args]))
        return self.read(resp)
    def stats(self):
        r = self.cmd(b"STATS")
        return {x[1][0][1].decode(): x[1][1][1].decode() for x in r[1]}

class Mc(Conn):
    def cmd(self, line):
        self.send(line)
        return self.read(memcache)

class Pg(Conn):
    def start(self, password=None, **params):
        self.send(pg_startup(**(params or {"user": "u", "database": "d"})))
        out = []
        while True:
            m = self.read(pgmsg)
            out.append(m)
            if m == ("R", 3):
                if password is None:
                    return out
                self.send(pg_m(b"p", password + b"\0"))
            if m[0] == "Z":
                return out
            if m[0] == "E":
                return out
    def until_ready(self, maxn=10000000):
        out = []
        while True:
            m = self.read(pgmsg)
            out.append(m)
            if m[0] == "Z":
                return out
            if len(out) > maxn:
                raise Bad("no ready message")
    def query(self, sql):
        self.send(pg_q(sql))
        return self.until_ready()
    def ext(self, sql, params=(), name=b"", portal=b"", describe=False):
        d = pg_parse(sql, name) + pg_bind(params, portal, name)
        if describe:
            d += pg_desc(b"P", portal)
        self.send(d + pg_exec(portal) + PG_SYNC)
        return self.until_ready()

def http_req(srv, raw, timeout=40, split=None):
    c = Conn(srv.connect(), timeout)
    try:
        c.send(raw)
        r = c.read(http)
        rest = c.read_eof()
        if rest:
            raise Bad(f"bytes after the HTTP reply: {rest[:80]!r}")
        return r
    finally:
        c.close()
def http_get(key, auth=None, q=b""):
    return b"GET /" + key + q + b" HTTP/1.1\r\nHost: x\r\n" + (b"Authorization: Bearer " + auth + b"\r\n" if auth else b"") + b"\r\n"
def http_put(key, val, q=b"", auth=None):
    return (b"PUT /" + key + q + b" HTTP/1.1\r\nHost: x\r\n" + (b"Authorization: Bearer " + auth + b"\r\n" if auth else b"")
            + b"Content-Length: %d\r\n\r\n" % len(val) + val)
def http_del(key, q=b"", auth=None):
    return b"DELETE /" + key + q + b" HTTP/1.1\r\nHost: x\r\n" + (b"Authorization: Bearer " + auth + b"\r\n" if auth else b"") + b"\r\n"
