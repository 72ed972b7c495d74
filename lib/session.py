"""Drives one server with random multi-protocol histories against the model of kv.py."""
import time
from kv import *
from server import Server, BOOT0, REAL0
from common import *

EDGE = [b"0", b"1", b"-1", b"9223372036854775807", b"-9223372036854775808", b"18446744073709551615", b"18446744073709551614",
        b"9223372036854775808", b"-9223372036854775807", b"12", b"007", b"", b"abc", b"1.5", b"1 ", b"--1", b"0x10", b"18446744073709551616", b"-", b" -5", b"\t-1"]
LENS = [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 2047, 2048, 4095, 4096,
        5000, 8191, 8192, 16383, 16384, 16385, 65535, 65536, 70000]

def rbytes(r, n):
    return r.randbytes(n)

class Gen:
    """Random operations over a small, reused key space."""
    def __init__(self, r, nkeys=12, binary=True, big=True, ttl=True, cas=True, flags=True, errors=True, whole=True, noreply=True,
                 letters="ab", maxlen=70000, ttlp=.3, casp=.35, only=None):
        self.r = r
        self.ttlp, self.casp, self.only = ttlp, casp, only
        self.binary, self.big, self.ttl, self.cas, self.flags, self.errors, self.whole = binary, big, ttl, cas, flags, errors, whole
        self.noreply = noreply
        self.maxlen = maxlen
        self.letters = letters
        self.keys = [self.newkey() for _ in range(nkeys)]
    def newkey(self):
        r = self.r
        x = r.random()
        if x < .45 or not self.binary:
            return b"%s%d" % (r.choice([b"k", b"key:", b"user_", b"a"]), r.randrange(40))
        if x < .55:
            return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:") for _ in range(r.choice([1, 2, 3, 4, 5, 8, 10, 16, 20, 50, 127, 128, 129, 249, 250, r.randrange(1, 140)])))
        if x < .62:
            return b"x" * r.choice([1, 2, 3, 4, 63, 64, 126, 127, 128, 200, 250, 255, 256, 300, r.randrange(1, 140)])
        if x < .66:
            return b""
        if x < .9:
            return rbytes(r, r.choice([1, 2, 3, 4, 5, 7, 9, 17, 40, 127, 128, 129, 256, 1000, r.randrange(1, 140)]))
        if x < .95:
            return r.choice([b"$1", b"'", b'"', b"\\", b"*", b"a b", b"\r\n", b"\0", b"\0\0", b"END", b"VALUE k 0 1", b"%s%n", b"'; DROP", b"E'x'"])
        return bytes([r.randrange(256)]) * r.choice([1, 6, 130])
    def key(self):
        r = self.r
        if r.random() < .06:
            i = r.randrange(len(self.keys))
            self.keys[i] = self.newkey()
            return self.keys[i]
        return r.choice(self.keys)
    def val(self):
        r = self.r
        x = r.random()
        if x < .25:
            return r.choice(EDGE)
        if x < .4:
            return b"%d" % r.choice([r.randrange(-100, 100), r.randrange(-2 ** 63, 2 ** 63), r.randrange(2 ** 64)])
        if x < .7 or not self.binary:
            return bytes(r.choice(b"abcdefghij XYZ0123456789") for _ in range(r.randrange(20)))
        n = r.choice(LENS) if self.big and r.random() < .3 else r.randrange(60)
        n = min(n, self.maxlen)
        if x < .9:
            return rbytes(r, n)
        return r.choice([b"\r\n", b"\0", b"'", b"\\", b'"', b"$1", b"END\r\n", b"\r\nSTORED\r\n", b"''", b"\\x00", b"\xff\xfe", b"%s%d%n"]) * r.choice([1, 1, 3])
    def ttlval(self):
        r = self.r
        k = r.choice(["ex", "ex", "px", "exat", "pxat"])
        x = r.random()
        if x < .15:
            n = r.choice([1, 2, 2592000, 2592001, 2 ** 31, 2 ** 33, 9223372036, 9223372037, I64MAX // 1000, I64MAX, 10 ** 15])
            if k in ("exat",): n = r.choice([1, 1700000000, 1700000001, 2 ** 33, I64MAX])
        elif x < .22 and k in ("ex", "px"):
            n = int(2 ** r.uniform(3, 29 if k == "ex" else 39))       # any length up to decades
        elif k in ("ex",):
            n = r.randrange(1, 8)
        elif k == "px":
            n = r.randrange(1, 8000)
        else:
            n = None      # filled with the current clock
        return [k, n]
    def op(self, model):
        while True:
            o = self.op1(model)
            if self.only is None or o.name in self.only:
                return o
    def op1(self, model):
        r = self.r
        x = r.random()
        k = self.key()
        if x < .3:
            p = {}
            if self.ttl and r.random() < self.ttlp:
                t = self.ttlval()
                if t[1] is None:
                    d = r.choice([-5000, -1000, 0, 1000, 2000, 3000, r.randrange(1, 9000)])
                    ms = model.env.real // MS + d
                    t[1] = ms if t[0] == "pxat" else ms // 1000
                if r.random() < .08 and self.errors:
                    t[1] = r.choice([0, -1, -2 ** 62])
                p["ttl"] = tuple(t)
            elif r.random() < .15:
                p["keepttl"] = True
            if r.random() < .3:
                p["cond"] = r.choice(["nx", "xx"])
            elif self.cas and r.random() < self.casp:
                p["cas"] = self.casval(model, k)
            if r.random() < .12:
                p["get"] = True
            if self.flags and r.random() < .3:
                p["flags"] = r.choice([0, 1, 5, 255, 256, 65535, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 32)])
            if self.errors and r.random() < .05:
                p = {"bad": True, "raw": r.choice([[b"EX"], [b"EX", b"abc"], [b"NX", b"XX"], [b"KEEPTTL", b"EX", b"5"], [b"BOGUS"], [b"FLAGS", b"x"],
                                       [b"CAS"], [b"CAS", b"-1"], [b"PX", b"0"], [b"EX", b"99999999999999999999"], [b"EX", b"1.5"]])}
            return Op("set", k, self.val(), p)
        if x < .45:
            return Op("get", k)
        if x < .53:
            return Op("gets", k)
        if x < .58:
            n = r.choice([1, 2, 3, 5, 9, r.randrange(1, 24)])
            # long argument lists pass other sizes of the same buffers
            if self.whole and r.random() < .03: n = r.choice([99, 100, 101, 126, 127, 128, 129, 130, 200, 255, 256, 257, 1000])
            ks = tuple(self.key() for _ in range(n))
            return Op(r.choice(["mget", "mgets", "mget", "mgets", "mexists", "mtouch", "mdel"]), None, keys=ks)
        if x < .64:
            return Op("del", k)
        if x < .68:
            return Op(r.choice(["exists", "touch"]), k)
        if x < .78:
            p = {}
            if r.random() < .5: p["u"] = True
            if r.random() < .6:
                p["by"] = r.choice([0, 1, 2, 10, I64MAX, 2 ** 63, U64MAX, r.randrange(1000), r.randrange(2 ** 62)])
                if not p.get("u"):
                    p["by"] = min(p["by"], I64MAX)
                    if r.random() < .4: p["by"] = -p["by"] - r.randrange(2)
                if r.random() < .06 and self.errors:
                    p["badby"] = r.choice([b"", b"x", b"1.0", b"99999999999999999999999", b"1 1"])
            return Op(r.choice(["incr", "decr"]), k, p=p)
        if x < .84:
            return Op(r.choice(["append", "prepend"]), k, self.val()[:3000])
        if x < .9:
            return Op(r.choice(["ttl", "pttl"]), k)
        if x < .94:
            if not self.ttl:
                return Op("get", k)
            if r.random() < .06 and self.errors:
                return Op("expire", k, p={"badby": r.choice([b"", b"x", b"1.0"]), "by": 0})
            return Op("expire", k, p={"by": r.choice([1, 2, 3, 5, 0, -1, -5, 2592000, 2592001, 1700000003, 2 ** 33, I64MAX, I64MIN + 1, r.randrange(1, 9), int(2 ** r.uniform(3, 29))])})
        if not self.whole:
            return Op("get", k)
        y = r.random()
        if y < .3:
            return Op("echo", val=self.val())
        if y < .45:
            return Op("ping", val=self.val(), p={"msg": True}) if r.random() < .6 else Op("ping")
        if y < .6:
            return Op("dbsize")
        if y < .75:
            return Op("keys", val=r.choice([b"*", b"k*", b"*1*", b"user_?", b"key:*", b"*:*", b"", b"?*", b"a*", b"\\k*"]))
        if y < .82:
            return Op("flush", p={"w": r.choice([b"FLUSHALL", b"FLUSHDB", b"FLUSH"]),
                                  "o": r.choice([[], [], [b"SYNC"], [b"FAST"], [b"SYNC", b"FAST"]])})
        if y < .9:
            return Op("sweep", p={"o": r.choice([[], [], [b"FAST"]])})
        if not self.errors:
            return Op("ping")
        return Op("raw", keys=r.choice([(b"GET",), (b"SET", k), (b"NOSUCH",), (b"NOSUCH", k, b"x"), (b"MGET",), (b"DEL",), (b"INCR",), (b"INCR", k, b"1"), (b"APPEND", k),
                                        (b"EXPIRE", k), (b"TTL",), (b"TTL", k, k, k), (b"EXISTS",), (b"TOUCH",), (b"INCRBY", k), (b"SETEX", k, b"0", b"v"),
                                        (b"SETEX", k, b"x", b"v"), (b"SETEX", k, b"5"), (b"SCAN",), (b"SCAN", b"x"), (b"KEYS",), (b"FLUSHALL", b"BOGUS"), (b"ECHO",),
                                        (b"GET", k, k), (b"DBSIZE", b"x")]))
    def casval(self, model, k):
        r = self.r
        e = model.d.get(k)
        x = r.random()
        if e is not None and e.cas is not None and x < .6:
            return e.cas
        old = [c for c in model.seen.get(k, ()) if e is None or c != e.cas]
        if old and x < .85:
            return r.choice(old)
        return r.randrange(2 ** 63, 2 ** 64)

class Session:
    def __init__(self, srv, r, enforce, cas=True, protos=PROTOS, ck=None, split=None, tag=""):
        self.srv, self.r, self.enforce, self.ck = srv, r, enforce, ck
        self.model = Model(srv.ctl.boot, srv.ctl.real, cas)
        self.protos = protos
        self.conns = {}
        self.trace = []
        self.abandoned = None
        self.kinds = set()
        self.nops = 0
        self.split = split
        self.tag = tag
    def conn(self, proto):
        if proto == "http":
            return Conn(self.srv.connect())
        c = self.conns.get(proto)
        if c is None:
            c = {"mc": Mc, "pgq": Pg, "pge": Pg}.get(proto, Resp)(self.srv.connect())
            if proto in ("pgq", "pge"):
                c.start()
            if proto == "inline":
                # the first word decides the protocol of a connection: upper case is RESP
                c.send(b"PING\r\n")
                if c.read(resp) != ("+", b"PONG"):
                    raise Violation("model:P:inline:ping", "inline PING not answered by PONG")
            self.conns[proto] = c
        return c
    def close(self):
        for c in self.conns.values():
            c.close()
        self.conns.clear()
    def fail(self, cat, text, op, proto, data):
        if self.model.involves_expiry(op) and cat == "P":
            cat = "E"
        msg = f"{proto}: {_show(op)}: {text}"
        if cat in self.enforce:
            key = f"model:{cat}:{proto}:{op.name}:" + ("err" if "error" in text else "val")
            raise Violation(key, msg + "\nhistory: " + "\n".join(self.trace[-40:]),
                            {"argv": self.srv.argv, "op": _show(op), "proto": proto, "bytes": data[:2000], "history": self.trace[-200:]})
        self.abandoned = f"{cat}: {msg}"
        return False
    def batch(self, proto, ops):
        """Runs ops pipelined on one connection. False when abandoned."""
        r, m = self.r, self.model
        if proto == "http":
            ops = ops[:1]
        c = self.conn(proto)
        data, wants = [], []
        for op in ops:
            b = render(proto, op, r)
            data.append(b)
        raw = b"".join(data)
        try:
            if any(len(op.keys or ()) > 64 for op in ops):
                # such a reply may exceed what the sockets hold: nothing else is on the way meanwhile
                return self._one_by_one(proto, c, ops, data)
            if self.split and r.random() < self.split and len(raw) > 2:
                cuts = sorted(r.randrange(1, len(raw)) for _ in range(r.randrange(1, 4)))
                for a, b in zip([0] + cuts, cuts + [len(raw)]):
                    c.send(raw[a:b])
                    if r.random() < .3: time.sleep(.0005)
            elif len(raw) > 400000:
                # never write more than the peer buffers while replies pile up
                for b in data:
                    pass
                return self._one_by_one(proto, c, ops, data)
            else:
                c.send(raw)
            for op, b in zip(ops, data):
                if not self._judge(proto, c, op, b):
                    return False
        except Bad as e:
            return self.fail("P", f"malformed reply: {e}", ops[0], proto, raw)
        except (Closed, Timeout) as e:
            self.srv.check()
            return self.fail("P", f"{type(e).__name__} {e}", op if 'op' in dir() else ops[0], proto, raw)
        finally:
            if proto == "http":
                c.close()
        return True
    def _one_by_one(self, proto, c, ops, data):
        for op, b in zip(ops, data):
            c.send(b)
            if not self._judge(proto, c, op, b):
                return False
        return True
    def _judge(self, proto, c, op, b):
        m = self.model
        res = m.apply(op, proto)
        self.nops += 1
        self.trace.append(f"{proto} {_show(op)} t={m.env.now - BOOT0}")
        if len(self.trace) > 400:
            del self.trace[:200]
        if noreply(proto, op):
            if res[0] == "amb":
                self.abandoned = "ambiguous number"
                return False
            return True
        rep = read_reply(c, proto)
        if res[0] == "amb":
            if is_err(proto, rep) or (proto == "mc" and rep[1].startswith(b"CLIENT")):
                m.d[op.key] = res[1]
                return True
            res = res[2]
            for a, b in stat_effect(op, proto, res).items():
                m.stats[a] = m.stats.get(a, 0) + b
        cat, text, cs = judge(proto, op, res, rep)
        self.kinds.add((proto, op.name, tuple(sorted(op.p)), res[0], _shape(res)))
        if cat:
            return self.fail(cat, text, op, proto, b)
        if cs:
            t = m.learn(op, cs)
            if t:
                return self.fail("K", t, op, proto, b)
        return True
    def advance(self, ns):
        self.srv.advance(ns)
        self.model.advance(ns)
    def step_clock(self):
        """Moves the clock, preferably to one unit before, at or after an expiration."""
        r, m = self.r, self.model
        ex = [e.exp for e in m.d.values() if e.exp > m.env.now and e.exp - m.env.now < 10 ** 4 * SEC]
        if ex and r.random() < .7:
            x = r.choice(ex)
            d = x - m.env.now + r.choice([-1, 0, 1, -MS, MS])
            if d > 0:
                self.advance(d)
                return
        self.advance(r.choice([1, 999, MS, 10 * MS, SEC, 3 * SEC + 1]))
    def final(self):
        """Whole content through RESP."""
        m = self.model
        items = m.live_items()
        ops = [Op("gets", k) for k in list(items)] + [Op("keys", val=b"*"), Op("dbsize")]
        for i in range(0, len(ops), 50):
            if not self.batch("resp", ops[i:i + 50]):
                return False
        return True

def _shape(res):
    if res[0] == "set": return (res[1], res[2], res[3] is not None)
    if res[0] in ("get", "gets"): return res[1] is not None and (len(res[1].value).bit_length(), res[1].exp != 0, res[1].flags != 0)
    if res[0] in ("mget", "mgets"): return (len(res[1]), sum(1 for x in res[1] if x))
    if res[0] in ("n", "len"): return min(res[1], 9)
    if res[0] == "num": return (res[1] > 0, abs(res[1]).bit_length() // 8)
    if res[0] == "ttl": return max(-3, min(res[1], 9))
    return None

def _show(op):
    v = op.val if len(op.val) <= 60 else op.val[:50] + b"...(%d)" % len(op.val)
    return f"{op.name} {op.key!r:.80} {v!r} {op.p or ''} {list(op.keys)[:6] if op.keys else ''}"

def run_history(sess, gen, nbatches, clock=.3):
    r = sess.r
    for _ in range(nbatches):
        proto = r.choice(sess.protos)
        n = 1 if proto == "http" else r.choice([1, 1, 2, 5, 12, 30])
        ops = []
        while len(ops) < n:
            # CAS operands come from values learnt before the batch
            op = gen.op(sess.model)
            if op.name == "set" and proto == "mc" and op.p.get("ttl") and r.random() < .2:
                op.p["ttl"] = ("ex", r.choice([0, -1, -5, 1700000005 + r.randrange(100), 2592000, 2592001]))
            if can(proto, op):
                if proto == "mc" and gen.noreply and r.random() < .1 and op.name in ("set", "append", "prepend", "del", "incr", "decr", "expire"):
                    op.p["noreply"] = True
                ops.append(op)
            elif r.random() < .2 and proto in ("http", "mc"):
                proto = r.choice(sess.protos); ops = []; n = 1 if proto == "http" else n
        if noreply(proto, ops[-1]):
            # the next read on this connection shows that the silent command was carried out
            ops.append(Op("get", ops[-1].key))
        if not sess.batch(proto, ops):
            return False
        if sess.srv.ctl.clockmode and r.random() < clock:
            sess.step_clock()
    return sess.final()

def huge_args(s, r):
    """One command with tens of thousands of arguments (RESP allows a hundred thousand)."""
    ks = [b"h%d" % i for i in range(r.choice([3, 40]))]
    s.batch("resp", [Op("set", k, b"%d" % i) for i, k in enumerate(ks[::2])])
    n = r.choice([2000, 32767, 65533, 65534, 65535, 65536, 65537, 70000, 99998])
    if s.abandoned is None: s.batch("resp", [Op(r.choice(["mget", "mexists", "mtouch", "mdel"]), keys=tuple(r.choices(ks, k=n)))])

def history_job(tag, n, args, letters, seconds, batches=60, genkw=None, protos=PROTOS, threads=2, shards=64, split=.2, virtual=True, post=None, pre=None, clock=.3):
    """Random histories on one server until n are done or the time is up; returns counters."""
    r = rng("hist", tag, n)
    t0 = time.time()
    out = {"histories": 0, "ops": 0, "abandoned": 0, "kinds": set(), "why": ""}
    cas = "--cas" in args
    with Server(args, virtual=virtual, threads=threads, shards=shards) as srv:
        h = 0
        while time.time() - t0 < seconds:
            h += 1
            if srv.ctl.boot - BOOT0 > 4 * 10 ** 18 or out["histories"] > 10 ** 6:
                break
            with_resp = Resp(srv.connect())
            with_resp.cmd("FLUSHALL")
            with_resp.close()
            s = Session(srv, r, letters, cas=cas, protos=protos, split=split)
            st = pre(srv, s) if pre else None
            if h % 8 == 2 and "resp" in protos and (genkw or {}).get("only") is None: huge_args(s, r)
            ok = s.abandoned is None and run_history(s, Gen(r, nkeys=r.choice([2, 4, 8, 14, 30]), cas=cas, **(genkw or {})), batches, clock)
            if ok and post:
                post(srv, s, r, st, out)
            s.close()
            srv.check()
            out["histories"] += 1
            out["ops"] += s.nops
            out["kinds"] |= s.kinds
            if not ok:
                out["abandoned"] += 1
                out["why"] = s.abandoned
        out["clock"] = (srv.ctl.boot - BOOT0) // SEC if virtual else 0
    return out

def run_model(ck, tag, letters, seconds, configs, **kw):
    """configs: list of server argument lists, one worker each."""
    res = pmap(history_job_kw, [(tag, i, a, letters, seconds, kw) for i, a in enumerate(configs)], ck=ck)
    kinds = set()
    for o in res:
        ck.case(n=o["histories"])
        ck.count("client_ops", o["ops"])
        ck.count("histories_abandoned", o["abandoned"])
        ck.count("virtual_seconds", o["clock"])
        kinds |= o["kinds"]
        if o["abandoned"]:
            ck.note_inconclusive("abandoned: " + str(o["why"])[:300])
    for k in kinds:
        ck.distinct.add(("model",) + k)
    ck.count("op_result_kinds", len(kinds))
    if kinds:
        ck.sample({"kinds": [repr(k) for k in sorted(kinds, key=repr)[::max(1, len(kinds) // 12)]]})

def history_job_kw(tag, i, a, letters, seconds, kw):
    kw = dict(kw)
    return history_job(tag, i, a, letters, seconds, **kw)

CONFIGS = [["--cas", "yes"], ["--cas", "yes", "--sixpack", "no"], ["--cas", "yes", "--autosweep", "no", "--shards", "1"],
           ["--cas", "yes", "--loadfactor", "95", "--shards", "3"], ["--shards", "4096"], ["--cas", "yes", "--shards", "11"], ["--cas", "yes", "--threads", "1", "--queuesize", "1"],
           ["--cas", "yes", "--loadfactor", "55", "--shards", "2"], ["--shards", "1021", "--threads", "2"], ["--evict", "no", "--cas", "yes"]]
