"""Postgres sessions against a model of the protocol and of the statement language (C27)."""
import threading
from session import *
from kv import *
from server import *
from persist import rconf, bad

WS = [b" ", b"  ", b"\t", b"\n", b" \r\n", b"\x0b", b"\x0c "]
KWBAD = set(b" \t\n\r\x0b\x0c;'\"$\0")
KW = [bytes([i]) for i in range(33, 256) if i not in KWBAD and i != 127]
BYTES = [bytes([i]) for i in range(256)]
PSTR = [b"'", b"''", b"$1", b"$2", b"\\", b"\\'", b"E'", b"\0", b"\n", b"; ", b"DEL x", b"::bytea", b"\"", b" ", b"--", b"\xff\xfe", "é€😀".encode(), b"\r\n", b"%s", b"$$"]
U4 = lambda cp: (b"\\u%04x" if cp & 1 else b"\\u%04X") % cp

def rbytes(r, nul=True):
    w = r.random()
    if w < .25: v = b"".join(r.choice(PSTR) for _ in range(r.randrange(1, 8)))
    elif w < .45: v = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 5, 30, 300])))
    elif w < .55: v = b""
    elif w < .6: v = r.choice(BYTES) * r.choice([1, 63, 64, 65, 5000])
    elif w < .61: v = b"L" * r.choice([70000, 300000])
    else: v = b"v%d" % r.randrange(1000)
    return v if nul else v.replace(b"\0", b"")

def kw(r):
    return b"".join(r.choice(KW) for _ in range(r.choice([1, 2, 4, 12])))

def lit(r):
    v = rbytes(r, nul=False)
    return pg_lit(v), v

def elit(r):
    """An escape string and what it denotes."""
    src, val = bytearray(), bytearray()
    for _ in range(r.choice([0, 1, 2, 5, 20])):
        w = r.random()
        if w < .3:
            s, v = r.choice([(b"\\\\", b"\\"), (b"\\'", b"'"), (b"''", b"'"), (b"\\n", b"\n"), (b"\\r", b"\r"), (b"\\t", b"\t"), (b"\\b", b"\b"), (b"\\f", b"\f"), (b"\\\"", b'"'), (b"\\/", b"/")])
        elif w < .45:
            cp = r.choice([0x41, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0x1f600, 0x10ffff, 0x10000, 0x27, 0x5c, 0x24])
            v = chr(cp).encode()
            s = U4(cp) if cp < 0x10000 else U4(0xd800 + (cp - 0x10000 >> 10)) + U4(0xdc00 + (cp - 0x10000 & 0x3ff))
        elif w < .6:
            s = v = bytes([r.choice([i for i in range(1, 256) if i not in (39, 92)])])
        elif w < .7: s = v = r.choice([b"$1", b";", b'"', b"u0041", b"E", b" ", b"n"])
        else: s = v = b"ab"
        src += s; val += v
    return r.choice([b"E'", b"e'"]) + bytes(src) + b"'", bytes(val)

class Text:
    """One statement text with its arguments: each a list of literal bytes and parameter numbers."""
    def __init__(self, r, args, params):
        self.r, self.n = r, 0
        self.src, self.args = [], []
        self.free = None
        if params:
            self.n = r.choice([1, 1, 2, 3, 5, 11, 12, 13, 30, 200 if r.random() < .1 else 4])
            self.free = list(range(1, self.n + 1))
            if r.random() < .7: r.shuffle(self.free)
    def put(self, src, pieces):
        self.src.append(src); self.args.append(pieces)
    def num(self):
        r = self.r
        if self.free: return self.free.pop()
        return r.randrange(1, self.n + 1)
    def arg(self, joined):
        r = self.r
        src, pieces, prev = b"", [], None
        for _ in range(r.choice([1, 1, 1, 2, 3, 6]) if joined else 1):
            w = r.random()
            if self.n and w < .5:
                k = self.num()
                s, v, kind = b"$%d" % k, k, "p"
            else:
                while True:
                    kind = r.choice("kqe")
                    if kind == "k":
                        s = v = kw(r)
                        if prev == "p" and s[:1].isdigit() or s in (b"E", b"e"): continue
                    elif kind == "q":
                        if prev in ("q", "e"): continue
                        s, v = lit(r)
                    else:
                        if prev == "k": continue
                        s, v = elit(r)
                    break
            src += s; pieces.append(v); prev = kind
        self.put(src, pieces)
    def rest(self, joined):
        """Uses up the parameters that are not mentioned yet."""
        while self.free: self.arg(joined)
    def text(self):
        r = self.r
        return r.choice([b"", b"", b" ", b"\n\t"]) + b"".join(s + (r.choice(WS) if i + 1 < len(self.src) or r.random() < .2 else b"") for i, s in enumerate(self.src)) + b";" * r.choice([0, 0, 0, 1, 3])

BADTEXT = [b"ECHO 'abc", b"ECHO E'abc\\'", b"ECHO \"abc\"", b"ECHO $$abc$$", b"ECHO $a$x$a$", b"ECHO $0", b"ECHO $65536", b"ECHO $99999999999999999999", b"ECHO $2", b"MGET $1 $3", b"MGET $4 $2 $1", b"ECHO a; ECHO b", b"ECHO 'a''", b"ECHO E'a''", b"ECHO E'a\\\\\\'"]
BADQ = BADTEXT + [b"ECHO $1", b"SET a $1"]

class PgSess:
    def __init__(self, srv, r, sid, store, pw=None, tcp=None):
        self.srv, self.r, self.id, self.store = srv, r, sid, store
        self.hand = []
        c = self.c = Pg(srv.connect(tcp=tcp))
        if r.random() < .3:
            c.send(struct.pack(">ii", 8, 80877103))
            b = b""
            while not b:
                c.s.settimeout(20); b = c.s.recv(1)
            if b != b"N": bad("pg:ssl", f"SSLRequest answered with {b!r}", argv=srv.argv)
        kw_ = {"user": "u"}
        if r.random() < .5: kw_.update({"database": "d", "application_name": "x" * r.choice([0, 1, 300]), "client_encoding": "UTF8"})
        got = c.start(pw, **kw_)
        want = [("R", 0), ("S", (b"client_encoding", b"UTF8")), ("S", (b"server_encoding", b"UTF8")), ("S",), ("Z", b"I")]
        if pw: want = [("R", 3)] + want
        self.same(got, want, "start-up", [])
        self.stmts, self.portals = {}, {}
        self.skip, self.oid, self.bound = False, 25, set()
        self.count = {}
        self.seq = []
    def same(self, got, want, what, sent):
        def m(g, w):
            if g[0] != w[0]: return False
            if len(w) == 1: return True
            return g[1] == w[1]
        if len(got) != len(want) or not all(m(g, w) for g, w in zip(got, want)):
            i = next((i for i, (g, w) in enumerate(zip(got, want)) if not m(g, w)), min(len(got), len(want)))
            kind = "pg:seq" if "".join(g[0] for g in got) != "".join(w[0] for w in want) else "pg:value"
            bad(kind, f"{what}: reply {i} is {got[i:i + 1]!r:.400}, expected {want[i:i + 1]!r:.400}; message types {''.join(g[0] for g in got)[-200:]!r}, expected {''.join(w[0] for w in want)[-200:]!r}",
                argv=self.srv.argv, sent=[repr(x)[:1500] for x in sent[-14:]])
    # ---- commands
    def key(self):
        return b"s%d:%d" % (self.id, self.r.randrange(12))
    def command(self, params, simple):
        """A Text of a valid command."""
        r = self.r
        t = Text(r, None, params)
        joined = not simple
        w = r.random()
        K = lambda: t.put(*self.keyarg(t, simple))
        def name(n):
            s = bytes(c ^ 32 if r.random() < .3 else c for c in n)
            if r.random() < .15: t.put(pg_lit(s), [s])
            else: t.put(s, [s])
        if w < .3:
            t.cmd = "echo"; name(b"ECHO"); t.arg(joined)
            # left-over parameters are joined to the argument
            while t.free:
                k = t.num(); t.src[-1] += b"$%d" % k; t.args[-1].append(k)
        elif w < .55:
            t.cmd = "set"; name(b"SET"); K(); t.arg(joined)
            while t.free:
                k = t.num(); t.src[-1] += b"$%d" % k; t.args[-1].append(k)
        elif w < .65:
            t.cmd = "append"; name(r.choice([b"APPEND", b"PREPEND"])); K(); t.arg(joined)
            while t.free:
                k = t.num(); t.src[-1] += b"$%d" % k; t.args[-1].append(k)
        elif w < .85:
            t.cmd = "mget"; name(b"MGET")
            for _ in range(r.choice([1, 2, 5])): K()
            t.rest(joined)
        elif w < .92:
            t.cmd = "del"; name(b"DEL"); K(); t.rest(joined)
        elif w < .95:
            t.cmd = "get"; t.free = None; t.n = 0; name(b"GET"); K()
        elif w < .97:
            t.cmd = "tx"; t.free = None; t.n = 0; name(r.choice([b"BEGIN", b"COMMIT", b"ROLLBACK"]))
        elif w < .985 and not simple:
            t.cmd = "empty"; t.free = None; t.n = 0
        else:
            t.cmd = "err"; name(r.choice([b"NOSUCH", b"GET"]))
            if r.random() < .5: t.put(b"a", [b"a"]); t.put(b"b", [b"b"])
            if t.args[0][0].lower() == b"get" and len(t.args) == 2: t.put(b"c", [b"c"])
            t.rest(joined)
        if t.cmd not in ("empty", "tx") and r.random() < .12:
            d = r.choice([b"::text", b"::bytea", b"::TEXT", b"::bytes"])
            t.src.insert(0, d); t.args.insert(0, [d])
        if t.cmd in ("echo", "set", "append") or not t.n: assert not t.free
        return t
    def keyarg(self, t, simple):
        """A key of this session, plain or assembled from parts."""
        k = self.key()
        w = self.r.random()
        if simple: return (k, [k]) if w < .5 else (pg_lit(k), [k]) if w < .8 else (pg_elit(k), [k])
        if w < .5: return k, [k]
        if w < .7: return pg_lit(k), [k]
        i = self.r.randrange(1, len(k))
        if w < .8: return pg_lit(k[:i]) + (k[i:] if k[i:] else b""), [k]
        if t.free and w < .95:
            n = t.num(); return b"s%d:$%d" % (self.id, n), [b"s%d:" % self.id, n]
        return k[:i] + pg_lit(k[i:]), [k]
    def execute(self, argv):
        """The replies of a command and its effect on the model."""
        if argv and argv[0][:2] == b"::":
            d = argv[0].lower()
            if d in (b"::bytea", b"::bytes"): self.oid = 17
            elif d == b"::text": self.oid = 25
            else: return [("E",)], True
            argv = argv[1:]
            if not argv: return [("C", b"BYTEA" if self.oid == 17 else b"TEXT")], False
        T = lambda *n: ("T", [(x, self.oid) for x in n])
        c = argv[0].lower()
        st = self.store
        if c == b"echo" and len(argv) == 2: return [T(b"message"), ("D", [argv[1]]), ("C", b"ECHO")], False
        if c == b"set" and len(argv) == 3:
            st[argv[1]] = argv[2]
            return [("C", b"SET 1")], False
        if c == b"get" and len(argv) == 2:
            return [T(b"value")] + ([("D", [st[argv[1]]])] if argv[1] in st else []) + [("C", b"GET %d" % (argv[1] in st))], False
        if c in (b"append", b"prepend") and len(argv) == 3:
            old = st.get(argv[1], b"")
            st[argv[1]] = old + argv[2] if c == b"append" else argv[2] + old
            return [("C", b"%s %d" % (c.upper(), len(st[argv[1]])))], False
        if c == b"mget" and len(argv) > 1:
            hit = [k for k in argv[1:] if k in st]
            return [T(b"key", b"value")] + [("D", [k, st[k]]) for k in hit] + [("C", b"MGET %d" % len(hit))], False
        if c == b"del" and len(argv) > 1:
            n = 0
            for k in argv[1:]: n += st.pop(k, None) is not None
            return [("C", b"DEL %d" % n)], False
        if c in (b"begin", b"commit", b"rollback"): return [("C", c.upper())], False
        return [("E",)], True
    # ---- messages; each returns (bytes, expected replies)
    def m_Q(self):
        r = self.r
        w = r.random()
        if w < .06: b, argv = r.choice([b"", b";", b"  ", b" ;;"]), None
        elif w < .18: b, argv = r.choice(BADQ), "err"
        elif w < .22: b = r.choice([b"::bytea", b"::text", b"::nosuch x", b"::", b"::TEXT;"]); argv = [b.rstrip(b";").split()[0]]
        else:
            t = self.command(False, True)
            b, argv = t.text(), [b"".join(a) for a in t.args]
        msg = pg_q(b)
        if self.skip: return msg, []
        if argv is None: return msg, [("I",), ("Z", b"I")]
        if argv == "err": return msg, [("E",), ("Z", b"I")]
        out, _ = self.execute(argv)
        return msg, out + [("Z", b"I")]
    def name(self, used):
        r = self.r
        w = r.random()
        if w < .3: return b""
        if w < .7 and used: return r.choice(sorted(used))
        return r.choice([b"s%d" % r.randrange(10), b"st-%d" % r.randrange(400), b"n" * r.choice([1, 62, 63]), b"\xc3\xa9'$1", b"a b"])
    def fail(self):
        self.skip = True
        return [("E",)]
    def m_P(self):
        r = self.r
        nm = self.name(self.stmts) if r.random() > .03 else b"x" * r.choice([64, 65, 300])
        if r.random() < .08: src, t = r.choice(BADTEXT), None
        else:
            t = self.command(r.random() < .7, False)
            src = t.text()
        msg = pg_parse(src, nm, [r.choice([0, 17, 23, 25])] * (t.n if t and r.random() < .3 else 0))
        if self.skip: return msg, []
        if t is None or len(nm) > 63: return msg, self.fail()
        self.stmts[nm] = (t.args, t.n)
        return msg, [("1",)]
    def m_B(self, stmt=None):
        r = self.r
        pn = self.name(self.bound) if r.random() > .02 else b"y" * r.choice([64, 100])
        sn = stmt if stmt is not None else self.name(self.stmts) if r.random() > .02 else r.choice([b"nosuchst", b"z" * 64])
        n = self.stmts[sn][1] if sn in self.stmts else r.randrange(3)
        if r.random() < .03: n = max(0, n + r.choice([-1, 1]))
        ps = [None if r.random() < .05 else rbytes(r) if r.random() < .5 or n > 20 else b"%d" % r.randrange(12) for _ in range(n)]
        f = r.choice([(), (), (0,), (1,), tuple(r.choice([0, 1]) for _ in range(n))])
        if r.random() < .02: f = (r.choice([2, 9]),)
        msg = pg_bind(ps, pn, sn, f, r.choice([(), (0,), (1,)]))
        if self.skip: return msg, []
        if any(x > 1 for x in f) or len(pn) > 63 or sn not in self.stmts: return msg, self.fail()
        args, want = self.stmts[sn]
        self.portals[pn] = (args, want, [p or b"" for p in ps])
        self.bound.add(pn)
        return msg, [("2",)]
    def m_D(self):
        r = self.r
        if r.random() < .03:
            msg = pg_desc(r.choice([b"X", b"s"]), b"")
            return msg, [] if self.skip else self.fail()
        if r.random() < .6:
            nm = self.name(self.stmts) if r.random() > .05 else b"nosuchst"
            msg = pg_desc(b"S", nm)
            if self.skip: return msg, []
            if nm not in self.stmts: return msg, self.fail()
            return msg, [("t", [self.oid] * self.stmts[nm][1])]
        nm = self.name(self.bound) if r.random() > .05 else b"nosuchp"
        if nm not in self.bound and nm in self.portals: nm = b"nosuchp"
        msg = pg_desc(b"P", nm)
        if self.skip: return msg, []
        if nm not in self.portals: return msg, self.fail()
        return msg, []
    def m_E(self, portal=None):
        nm = portal if portal is not None else self.name(self.bound) if self.r.random() > .03 else b"nosuchp"
        if nm not in self.bound and nm in self.portals: nm = b"nosuchp"     # bound before the last sync: left open
        msg = pg_exec(nm)
        if self.skip: return msg, []
        if nm not in self.portals: return msg, self.fail()
        args, n, ps = self.portals[nm]
        if n != len(ps): return msg, self.fail()
        argv = [b"".join(ps[x - 1] if isinstance(x, int) else x for x in a) for a in args]
        if not argv: return msg, [("I",)]
        out, err = self.execute(argv)
        if err: self.skip = True
        self.seq.append(n)
        return msg, out
    def m_S(self):
        self.skip = False
        self.bound = set()
        return PG_SYNC, [("Z", b"I")]
    def m_bad(self):
        msg = pg_m(self.r.choice([b"k", b"z", b"y"]), b"abc\0")
        if self.skip: return msg, []
        return msg, self.fail()
    def burst(self):
        """Messages ending in one whose reply ends the burst."""
        r = self.r
        ms, want = [], []
        def add(x):
            ms.append(x[0]); want.extend(x[1])
        for _ in range(r.choice([1, 1, 2, 5, 20])):
            w = r.random()
            if w < .3: add(self.m_Q())
            elif w < .55:
                # the usual cycle
                add(self.m_P())
                if r.random() < .3: add(self.m_D())
                for _ in range(r.choice([1, 1, 2, 4])):
                    add(self.m_B())
                    if r.random() < .3: add(self.m_D())
                    if r.random() < .8: add(self.m_E())
                if r.random() < .8: add(self.m_S())
            elif w < .6: add(self.m_bad())
            else:
                for _ in range(r.choice([1, 3, 8])):
                    add(r.choice([self.m_P, self.m_B, self.m_D, self.m_E, self.m_E, self.m_S, self.m_P, self.m_B])())
        add(self.m_S())
        return ms, want
    def send(self, ms):
        r = self.r
        b = b"".join(ms)
        w = r.random()
        if w < .5 or len(b) > 200000: self.c.send(b)
        elif w < .8:
            for m in ms: self.c.send(m)
        else:
            i = 0
            while i < len(b):
                n = r.choice([1, 3, 50, 1000]); self.c.send(b[i:i + n]); i += n
                if len(b) > 3000 and n < 50: n = 1000
    def read(self, want):
        got = []
        while len(got) < len(want):
            try: got.append(self.c.read(pgmsg))
            except Timeout: break
            except Closed: break
            if got[-1][0] != want[len(got) - 1][0]: break
        return got

def pg_round(srv, ss, adm, r, o):
    batch = []
    for s in r.sample(ss, r.randrange(1, len(ss) + 1)):
        ms, want = s.burst()
        batch.append((s, ms, want))
    errs, ths = [], []
    def put(s, ms):
        try: s.send(ms)
        except Exception as e: errs.append(e)
    for s, ms, want in batch:
        if sum(map(len, ms)) < 50000 and len(want) < 300: s.send(ms)
        else:
            ths.append(threading.Thread(target=put, args=(s, ms), daemon=True)); ths[-1].start()   # reading while sending
    for s, ms, want in batch:
        got = s.read(want)
        s.same(got, want, "message sequence", ms)
        if s.c.pending(): bad("pg:extra", f"bytes after the last reply: {bytes(s.c.pending())[:200]!r}", argv=srv.argv, sent=[repr(x)[:1500] for x in ms[-10:]])
        o["messages"] += len(ms); o["replies"] += len(want)
        sig = "".join(chr(m[0]) for m in ms)
        for i in range(len(sig) - 2): o["kinds"].add(sig[i:i + 3])
    for t in ths: t.join(60)
    if errs: raise errs[0]
    store = ss[0].store
    if r.random() < .3:
        ks = r.sample(sorted(store), min(len(store), 12)) + [b"s%d:%d" % (r.choice(ss).id, r.randrange(12))]
        v = adm.cmd(b"MGET", *ks)
        for k, x in zip(ks, v[1]):
            w = store.get(k)
            if (x[1] if x[0] == "$" else None) != w: bad("pg:effect", f"key {k!r} holds {x!r:.300}, the statements stored {w!r:.300}", argv=srv.argv)
        o["effects"] += len(ks)

def probes(srv, r, o):
    """Closing and large statements."""
    c = Pg(srv.connect()); c.start(srv.pw)
    for n in (1, 11, 12, 13, 100, 3000, 65535):
        o["messages"] += 5
        if n > 3000 and r.random() < .5: continue
        order = list(range(1, n + 1)); r.shuffle(order)
        vals = [b"k%d" % i for i in range(n)]
        x = c.ext(b"ECHO " + b"".join(b"$%d" % i for i in order), vals)
        want = b"".join(vals[i - 1] for i in order)
        if [m[0] for m in x] != list("12TDCZ") or x[3][1] != [want]: bad("pg:params", f"{n} parameters: {x!r:.300}", argv=srv.argv)
        c.send(pg_desc(b"S", b"") + PG_SYNC)
        x = c.until_ready()
        if x[0] != ("t", [25] * n): bad("pg:describe", f"{n} parameters described as {x!r:.300}", argv=srv.argv)
    c.send(pg_q(b"ECHO a") + PG_X + pg_q(b"ECHO b"))
    x = c.until_ready()
    c.s.settimeout(20)
    try:
        m = c.read(pgmsg)
        bad("pg:close", f"a reply after Terminate: {m!r:.200}", argv=srv.argv)
    except Closed: pass
    except Timeout: bad("pg:close", "the connection stays open after Terminate", argv=srv.argv)
    c.close()

def pg_job(n, seconds):
    r = rng("pg", n)
    o = {"messages": 0, "replies": 0, "effects": 0, "sessions": 0, "kinds": set()}
    t0 = time.time()
    sid = 0
    while time.time() - t0 < seconds or not o["sessions"]:
        a, kw_ = rconf(r)
        pw = "Pg-%d" % r.randrange(10 ** 6) if r.random() < .3 else None
        if pw: a += ["--auth", pw]
        with Server(a, tcp=r.random() < .6, **kw_) as srv:
            srv.pw = pw.encode() if pw else None
            adm = Resp(srv.connect())
            if pw: adm.cmd(b"AUTH", pw.encode())
            try: probes(srv, r, o)
            except (Closed, Bad, Timeout) as e:
                srv.check()
                bad("pg:conn", f"a session broke: {e!r}", argv=srv.argv)
            store = {}
            end = time.time() + r.choice([1, 3, 8])
            while time.time() < end:
                srv.ctl.set(readshort=r.choice([0, 0, 0, 7, 100]), sockshort=r.choice([0, 0, 0, 5, 300]), sockagain=r.choice([0, 0, 0, 4]), sockevents=r.choice([0, 0, 1]), jitter=r.choice([0, 0, 10]))
                ss = []
                for _ in range(r.choice([1, 2, 4])):
                    sid += 1
                    ss.append(PgSess(srv, rng("pgs", n, sid, r.random()), sid, store, srv.pw, bool(srv.tcp) and r.random() < .5))
                    o["sessions"] += 1
                try:
                    for _ in range(r.choice([3, 15, 60])):
                        pg_round(srv, ss, adm, r, o)
                        if time.time() > t0 + seconds + 3: break
                except (Closed, Bad, Timeout) as e:
                    srv.check()
                    bad("pg:conn", f"a session broke: {e!r}", argv=srv.argv)
                for s in ss:
                    s.c.s.settimeout(20)
                    if r.random() < .5: s.c.send(PG_X)
                    s.c.close()
                    for k in [k for k in store if k.startswith(b"s%d:" % s.id)]: adm.cmd(b"DEL", k); store.pop(k)
                store.clear(); adm.cmd(b"FLUSHALL", b"SYNC")
                srv.check()
                if time.time() > t0 + seconds: break
            srv.ctl.set(readshort=0, sockshort=0, sockagain=0, sockevents=0, jitter=0)
            adm.close()
    return o
