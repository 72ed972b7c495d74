"""MONITOR streams against the commands that were issued (C26)."""
import threading
from session import *
from kv import *
from server import *
from persist import rconf, bad
from flushjob import open_conn
from connjob import rst

LINE = re.compile(rb'^(\d+\.\d{6}) \[0 (\S+)\]((?: "(?:[^"\\\x00-\x1f\x7f-\xff]|\\.|\\x[0-9A-F]{2})*")+)$')
ESC = re.compile(rb'\\(x[0-9A-Fa-f]{2}|.)', re.S)
MAPE = {b"n": b"\n", b"r": b"\r", b"t": b"\t", b'"': b'"', b"\\": b"\\"}
SECRET = b"s3cr3t-Pw-%d"

def decode(line, argv=None):
    """Arguments of a monitor line."""
    m = LINE.match(line)
    if not m: bad("mon:line", f"not a monitor line: {line[:300]!r}", argv=argv)
    def one(x):
        c = x.group(1)
        if c[:1] == b"x" and len(c) == 3: return bytes([int(c[1:], 16)])
        if c not in MAPE: bad("mon:line", f"unknown escape in {line[:300]!r}", argv=argv)
        return MAPE[c]
    out = []
    s = m.group(3)
    i = 0
    while i < len(s):
        j = i + 2
        while s[j] != 34:
            j += 2 if s[j] == 92 else 1
        out.append(ESC.sub(one, s[i + 2:j]))
        i = j + 1
    return float(m.group(1)), m.group(2), out

class Mon(Resp):
    """A monitor client."""
    def __init__(self, srv, tcp=None, pw=None):
        super().__init__(srv.connect(tcp=tcp))
        if pw and self.cmd(b"AUTH", pw) != ("+", b"OK"): raise HarnessError("auth")
        if self.cmd(b"MONITOR") != ("+", b"OK"): bad("mon:ok", "MONITOR was not acknowledged", argv=srv.argv)
        self.srv = srv
        self.raw, self.pongs = [], 0
    def next(self):
        x = self.read(resp)
        if x == ("+", b"PONG"): self.pongs += 1; return None
        if x[0] != "+": bad("mon:bytes", f"a monitor received {x!r}"[:400], argv=self.srv.argv)
        self.raw.append(x[1])
        return x[1]

BYTES = [bytes([i]) for i in range(256)]
def arg(r, textok=False):
    w = r.random()
    lo = 1 if textok else 0
    if w < .3: return bytes(r.randrange(lo, 256) for _ in range(r.choice([0, 1, 3, 10, 60])))
    if w < .5: return b"".join(r.choice([b'"', b"\\", b"\n", b"\r", b"\t", b"\\n", b"\\x41", b'\\"', b"'", b" ", b"\x7f", b"\x1f", b"%s", b"%n", b"\r\n+OK", b"]"]) for _ in range(r.randrange(8)))
    if w < .6: return b"x" * r.choice([250, 256, 300, 5000, 70000 if r.random() < .1 else 100])
    return b"v%d" % r.randrange(1000)

class Client:
    """Issues tagged commands over one protocol and remembers what a monitor must show."""
    def __init__(self, srv, r, cid, proto, pw=None, tcp=None):
        self.srv, self.r, self.id, self.proto = srv, r, cid, proto
        self.log = []           # expected (mode, value) in order of issue
        self.sent = []          # (time before sending, time of the reply), per command
        self.n = 0
        self.pw = pw
        if proto != "http":
            s = srv.connect(tcp=tcp)
            if proto == "mc":
                self.c = Mc(s)                   # there is no way to authenticate
            elif proto in ("pgq", "pge"):
                self.c = Pg(s); self.c.start(pw)
            else:
                self.c = Resp(s)
                if pw: self.c.cmd(b"AUTH", pw)
    def tag(self):
        self.n += 1
        return b"#%d.%d#" % (self.id, self.n)
    def cmd(self):
        """(bytes, expectation, replies) of one command."""
        r, p = self.r, self.proto
        t = self.tag()
        if p == "mc":
            k = r.choice([b"set", b"add", b"replace", b"append", b"prepend", b"cas", b"get", b"gets", b"incr", b"decr", b"delete", b"touch"])
            nr = b" noreply" if r.random() < .2 and not k.startswith(b"get") else b""
            if k in (b"set", b"add", b"replace", b"append", b"prepend", b"cas"):
                v = arg(r)
                return (b"%s %s %d %d %d%s%s\r\n%s\r\n" % (k, t, r.choice([0, 7]), r.choice([0, 1000]), len(v), b" 55" if k == b"cas" else b"", nr, v), ("head", [None, t, v]), 0 if nr else 1)
            if k in (b"get", b"gets"):
                ks = [b"k%d" % i for i in range(r.choice([0, 1, 5]))]
                return (b"%s %s\r\n" % (k, b" ".join([t] + ks)), ("exact", [None, t] + ks), 1)
            if k in (b"incr", b"decr"): return (b"%s %s 12%s\r\n" % (k, t, nr), ("exact", [None, t, b"12"]), 0 if nr else 1)
            if k == b"touch": return (b"touch %s 1000%s\r\n" % (t, nr), ("head", [None, t]), 0 if nr else 1)
            return (b"delete %s%s\r\n" % (t, nr), ("exact", [None, t]), 0 if nr else 1)
        if p == "http":
            w = r.random()
            auth = self.pw
            if w < .4: return (http_get(t.replace(b"#", b"-"), auth), ("exact", [None, t.replace(b"#", b"-")]), 1)
            if w < .8:
                v = arg(r)
                q = b"?auth=" + auth if auth and r.random() < .5 else b""
                return (http_put(t.replace(b"#", b"-"), v, q, None if q else auth), ("head", [None, t.replace(b"#", b"-"), v]), 1)
            return (http_del(t.replace(b"#", b"-"), auth=auth), ("exact", [None, t.replace(b"#", b"-")]), 1)
        text = p != "resp"
        w = r.random()
        if w < .3: a = [b"ECHO", t + arg(r, text)]
        elif w < .6: a = [b"SET", t, arg(r, text)]
        elif w < .75: a = [b"MGET", t] + [arg(r, text) for _ in range(r.choice([0, 1, 4, 30]))]
        elif w < .8: a = [b"GET", t + arg(r, text)]
        elif w < .85: a = [b"DEL", t, arg(r, text)]
        elif w < .9: a = [b"KEYS", b"none" + t]
        elif w < .95: a = [b"PING", t]
        else: a = [b"SETEX", t, b"1000", arg(r, text)]
        if r.random() < .3: a[0] = bytes(c ^ 32 if r.random() < .3 else c for c in a[0])
        if p == "resp": return (enc_resp(a), ("exact", a), 1)
        if p == "inline":
            if not 65 <= a[0][0] <= 90: a[0] = a[0].upper()
            return (enc_inline(a, r), ("exact", a), 1)
        if p == "pgq":
            return (pg_q(b" ".join([a[0]] + [pg_lit(x) if r.random() < .5 else pg_elit(x) for x in a[1:]])), ("exact", a), "z")
        nums = [b"$%d" % (i + 1) for i in range(len(a) - 1)]
        return (pg_parse(b" ".join([a[0]] + nums)) + pg_bind(a[1:], formats=(r.choice([0, 1]),)) + pg_exec() + PG_SYNC, ("exact", a), "z")
    def batch(self):
        r = self.r
        t0 = time.time()
        if self.proto == "http":
            b, e, _ = self.cmd()
            self.log.append(e)
            http_req(self.srv, b)
            self.sent.append((t0, time.time())); return
        n = r.choice([1, 1, 2, 6, 30])
        cs = [self.cmd() for _ in range(n)]
        self.log += [e for _, e, _ in cs]
        self.sent += [(t0, None)] * n
        self.c.send(b"".join(b for b, _, _ in cs))
        for i, (_, e, k) in enumerate(cs):
            if k == "z": self.c.until_ready()
            elif k: self.c.read(memcache if self.proto == "mc" else resp)
        if self.proto == "mc" and not cs[-1][2]:
            self.c.send(b"mn\r\n"); self.c.read(memcache)        # an error reply: everything before it is done
        t1 = time.time()
        for i in range(n): self.sent[-n + i] = (t0, t1)

OWNER = re.compile(rb"[#-](\d+)\.(\d+)[#-]")

def same(e, args):
    mode, want = e
    if mode == "exact" and len(args) != len(want) or len(args) < len(want): return False
    return all(w is None or w == a if i else (w is None or w.lower() == a.lower()) for i, (w, a) in enumerate(zip(want, args)))

def sort_lines(lines, clients, argv):
    """Per client, the numbers of its commands in the order the monitor showed them."""
    seen = {c.id: [] for c in clients}
    by = {c.id: c for c in clients}
    last = {}
    for ln in lines:
        ts, addr, args = decode(ln, argv)
        if args == [b"ECHO", b"END"] or args and args[0].lower() in (b"stats", b"dbsize") and len(args) == 1: continue
        m = None
        for a in args[1:2]: m = OWNER.search(a)
        if not m or int(m.group(1)) not in by: bad("mon:foreign", f"a monitor line shows a command nobody issued: {ln[:300]!r}", argv=argv)
        c, i = by[int(m.group(1))], int(m.group(2))
        if i > len(c.log): bad("mon:foreign", f"a monitor line shows a command nobody issued: {ln[:300]!r}", argv=argv)
        if not same(c.log[i - 1], args):
            bad("mon:args", f"{c.proto} command {c.log[i - 1][1]!r} is shown with the arguments {args!r}"[:1500], argv=argv, line=repr(ln[:3000]))
        if c.sent[i - 1][1] is not None and not c.sent[i - 1][0] - 2 <= ts <= c.sent[i - 1][1] + 2 and len(c.sent) >= i:
            bad("mon:time", f"{ln[:200]!r} was issued between {c.sent[i - 1][0]:.3f} and {c.sent[i - 1][1]:.3f}", argv=argv)
        seen[c.id].append(i)
    return seen

def window(nums, lo, hi, what, argv, c):
    """nums must be consecutive, start at or before lo and end at or after hi."""
    for a, b in zip(nums, nums[1:]):
        if b <= a: bad("mon:twice" if b in nums[:nums.index(a) + 1] else "mon:order", f"{what}: command {b} of {c.proto} client {c.id} is shown after command {a}", argv=argv)
        if b != a + 1: bad("mon:missing", f"{what}: command {a + 1} of {c.proto} client {c.id} ({c.log[a][1]!r}) is not shown, its neighbours are"[:900], argv=argv)
    if lo <= hi:
        if not nums or nums[0] > lo: bad("mon:missing", f"{what}: command {lo} of {c.proto} client {c.id} ({c.log[lo - 1][1]!r}), sent after MONITOR was acknowledged, is not shown"[:900], argv=argv)
        if nums[-1] < hi: bad("mon:missing", f"{what}: command {nums[-1] + 1} of {c.proto} client {c.id} ({c.log[nums[-1]][1]!r}) is not shown"[:900], argv=argv)

def mon_round(srv, r, o, seconds, pw, tcp, cid0):
    protos = ["resp", "resp", "inline", "mc", "pgq", "pge", "http"]
    T = lambda: bool(tcp) and r.random() < .5
    srv.ctl.set(jitter=r.choice([0, 0, 20]), sockdelay=r.choice([0, 0, 500]), sockshort=r.choice([0, 0, 7, 1000]), sockagain=r.choice([0, 0, 5]), threaddelay=r.choice([0, 0, 1000]), readshort=r.choice([0, 0, 50]), preempt=r.choice([0, 0, 0, 100]))
    clients = [Client(srv, rng("mc", r.random()), cid0 + i, r.choice([p for p in protos if p != "mc" or not pw]), pw, T()) for i in range(r.choice([1, 2, 4, 6]))]
    adm = Resp(srv.connect())
    if pw: adm.cmd(b"AUTH", pw)
    slow = r.random() < .3
    mons = [Mon(srv, T(), pw) for _ in range(r.choice([1, 1, 2, 4]))]
    errs, stop = [], threading.Event()
    def issue(c):
        try:
            while not stop.is_set(): c.batch()
        except Violation as v: errs.append(v)
        except (Closed, Timeout, Bad) as e: errs.append(Violation("mon:client", f"{c.proto} client next to monitors failed: {e!r}", {"argv": srv.argv}))
        except Exception as e: errs.append(e)
    done = [0] * len(mons)
    def watch(i):
        try:
            m = mons[i]
            if slow and i == 0: time.sleep(seconds + .2)
            while m.next() is None or not m.raw[-1].endswith(b'"ECHO" "END"'):
                pass
            done[i] = 1
        except Violation as v: errs.append(v)
        except (Closed, Timeout, Bad) as e: errs.append(Violation("mon:stream", f"the stream of a monitor broke: {e!r} after {len(mons[i].raw)} lines", {"argv": srv.argv}))
        except Exception as e: errs.append(e)
    visits = []
    def visitor(rr):
        """Monitors that come, read for a while and leave in some way."""
        try:
            while not stop.is_set():
                m = Mon(srv, bool(tcp) and rr.random() < .5, pw)
                lo = {c.id: len(c.log) + 1 for c in clients}
                npongs = 0
                for _ in range(rr.choice([0, 1, 5, 40])):
                    if stop.is_set(): break
                    m.s.settimeout(.3)
                    try: m.next()
                    except Timeout: break
                    if rr.random() < .1:
                        m.s.settimeout(20); k = m.pongs
                        pings = [rr.choice([enc_resp([b"PING"]), b"PING\r\n", enc_resp([b"ping"])]) for _ in range(rr.choice([1, 1, 2, 5]))]
                        npongs += len(pings)
                        pings = b"".join(pings)
                        cut = rr.randrange(len(pings) + 1)
                        m.send(pings[:cut])
                        if rr.random() < .5: time.sleep(.002)
                        if cut < len(pings): m.send(pings[cut:])
                        while m.pongs < npongs: m.next()
                # what it surely had to see: commands logged after the acknowledgement and answered before it stopped; only the gap-free
                # prefix is checked because the rest may be in flight
                lines = list(m.raw)
                w = rr.random()
                if w < .3: rst(m.s)
                elif w < .5: m.send(enc_resp([b"GET", b"x"]))
                elif w < .6: m.send(b"*1\r\n$")
                if .4 < w < .5:
                    m.s.settimeout(20)
                    try:
                        while True: m.next(); lines = list(m.raw)
                    except Closed: pass
                m.close()
                visits.append((lines, lo, m.pongs - npongs))
                time.sleep(rr.random() * .01)
        except Violation as v: errs.append(v)
        except (Closed, Bad, Timeout) as e: errs.append(Violation("mon:stream", f"a visiting monitor failed: {e!r}", {"argv": srv.argv}))
        except Exception as e: errs.append(e)
    ths = [threading.Thread(target=issue, args=(c,), daemon=True) for c in clients]
    mts = [threading.Thread(target=watch, args=(i,), daemon=True) for i in range(len(mons))]
    vts = [threading.Thread(target=visitor, args=(rng("mv", r.random()),), daemon=True) for _ in range(r.choice([0, 1, 2]))]
    for t in ths + mts + vts: t.start()
    time.sleep(seconds)
    stop.set()
    for t in ths + vts: t.join(60)
    srv.ctl.set(sockdelay=0, sockshort=0, sockagain=0, threaddelay=0, readshort=0)
    adm.cmd(b"ECHO", b"END")
    for t in mts: t.join(60)
    srv.check()
    for e in errs: raise e
    if any(t.is_alive() for t in ths + mts + vts): bad("mon:hang", f"a monitor did not receive its stream to the end: {[len(m.raw) for m in mons]} lines received", argv=srv.argv)
    for i, m in enumerate(mons):
        seen = sort_lines(m.raw, clients, srv.argv)
        for c in clients:
            window(seen[c.id], 1, len(c.log), f"monitor {i}" + (" (slow)" if slow and not i else ""), srv.argv, c)
            if len(c.log) != len(seen[c.id]): bad("mon:missing", f"{len(seen[c.id])} of {len(c.log)} commands shown", argv=srv.argv)
        if pw and any(pw in x for x in m.raw): bad("mon:secret", "a monitor line shows the password", argv=srv.argv)
        o["lines"] += len(m.raw)
        # nothing more arrives
        if not m.quiet(.02): bad("mon:extra", f"a monitor received more than what was issued: {m.pending()[:200]!r}", argv=srv.argv)
        m.close()
    for lines, lo, dp in visits:
        if dp: bad("mon:pong", f"{dp} PONG replies more than pings", argv=srv.argv)
        seen = sort_lines(lines, clients, srv.argv)
        for c in clients:
            nums = seen[c.id]
            window(nums, 1, 0, "visiting monitor", srv.argv, c)
            if nums and nums[0] > lo[c.id]: bad("mon:missing", f"visiting monitor: command {lo[c.id]} of {c.proto} client {c.id} was sent after MONITOR was acknowledged and is not shown, command {nums[0]} is", argv=srv.argv)
        o["visits"] += 1; o["lines"] += len(lines)
    for c in clients:
        o["commands"] += len(c.log)
        o["kinds"].add((c.proto, len(mons), slow, len(clients)))
        if c.proto != "http": c.c.close()
    adm.close()

def handshake(srv, r, o, pw):
    """A command sent once MONITOR is acknowledged is shown, however the threads run."""
    srv.ctl.set(sockdelay=r.choice([0, 1000, 3000]), threaddelay=r.choice([0, 500]), jitter=r.choice([0, 5]), preempt=r.choice([0, 0, 100]))
    a = Resp(srv.connect())
    if pw: a.cmd(b"AUTH", pw)
    for i in range(40):
        m = Mon(srv, None, pw)
        t = b"first-%d" % i
        a.cmd(b"ECHO", t)
        a.cmd(b"ECHO", b"END")
        m.s.settimeout(30)
        try: x = m.next()
        except Timeout: bad("mon:missing", "commands sent after MONITOR was acknowledged are not shown", argv=srv.argv)
        if not x.endswith(b'"ECHO" "%s"' % t): bad("mon:missing", f"a command sent after MONITOR was acknowledged is not shown; the first line is {x[:200]!r}", argv=srv.argv)
        m.close()
        o["handshakes"] += 1
    srv.ctl.set(sockdelay=0, threaddelay=0)

def quoting(srv, r, o, pw):
    """Every byte and pairs of bytes in every position of an argument."""
    m = Mon(srv, None, pw)
    a = Resp(srv.connect())
    if pw: a.cmd(b"AUTH", pw)
    vals = [bytes([i]) for i in range(256)] + [bytes([i]) + r.choice(BYTES) + bytes([i]) for i in range(256)]
    vals += [bytes(r.randrange(256) for _ in range(r.choice([2, 5, 40, 255, 256, 257, 1000]))) for _ in range(200)] + [b"", b"\\" * 99, b'"' * 99, bytes(range(256)) * 20]
    for i in range(0, len(vals), 50):
        part = vals[i:i + 50]
        a.send(b"".join(enc_resp([b"ECHO", v]) if j % 2 else enc_resp([b"MGET", v, b"z", v]) for j, v in enumerate(part)))
        for v in part: a.read(resp)
        for j, v in enumerate(part):
            x = m.next()
            args = decode(x, srv.argv)[2]
            if args != ([b"ECHO", v] if j % 2 else [b"MGET", v, b"z", v]): bad("mon:args", f"the argument {v[:300]!r} is shown as {args[1][:300]!r}", argv=srv.argv, line=repr(x[:2000]))
            o["quoted"] += 1
    m.close(); a.close()

def secrets(srv, r, o, pw):
    """Authentication in every protocol leaves no trace of any password."""
    m = Mon(srv, None, pw)
    used = [pw]
    for i in range(12):
        w = b"Wr0ng-%d" % r.randrange(10 ** 9) if r.random() < .4 else pw
        used.append(w)
        k = r.choice(["resp", "resp2", "inline", "mc", "mcset", "http", "httpq", "pg", "pgq", "re"])
        try:
            if k == "pg":
                c = Pg(srv.connect()); c.start(w)
            elif k == "http": http_req(srv, http_put(b"k", b"v", b"", w))
            elif k == "httpq": http_req(srv, http_put(b"k", b"v", b"?auth=" + w))
            elif k in ("mc", "mcset"):
                c = Mc(srv.connect())
                c.cmd(b"auth " + w + b"\r\n")
                if k == "mcset": c.cmd(b"auth " + w + b"\r\n"); c.cmd(b"set x 0 0 1\r\ny\r\n")
            else:
                c = Resp(srv.connect())
                a = [r.choice([b"AUTH", b"auth", b"Auth"]).upper() if k == "inline" else r.choice([b"AUTH", b"auth", b"aUTH"]), w]
                if k == "resp2": a.insert(1, r.choice([b"default", w, b"user"]))
                if k in ("re", "resp2"): c.cmd(b"AUTH", pw)
                c.send(enc_inline(a) if k == "inline" else enc_resp(a)); c.read(resp)
                c.cmd(b"PING")
                if k == "re": c.cmd(b"AUTH", w, w, w); c.cmd(b"AUTH")
        except (Closed, Bad): pass
        o["kinds"].add(("secret", k))
    a = Resp(srv.connect()); a.cmd(b"AUTH", pw); a.cmd(b"ECHO", b"END")
    while not m.next().endswith(b'"ECHO" "END"'): pass
    for x in m.raw:
        for w in used:
            if w in x: bad("mon:secret", f"a monitor line shows a password: {x[:300]!r}", argv=srv.argv)
    o["secretlines"] += len(m.raw)
    m.close(); a.close()

def mon_job(n, seconds):
    r = rng("mon", n)
    o = {"lines": 0, "commands": 0, "visits": 0, "handshakes": 0, "quoted": 0, "secretlines": 0, "rounds": 0, "kinds": set()}
    t0 = time.time()
    cid = 1
    while time.time() - t0 < seconds or not o["rounds"]:
        a, kw = rconf(r)
        pw = SECRET % r.randrange(10 ** 9) if r.random() < .4 else None
        if pw: a += ["--auth", pw.decode()]
        with Server(a, tcp=r.random() < .6, **kw) as srv:
            handshake(srv, r, o, pw)
            quoting(srv, r, o, pw)
            if pw: secrets(srv, r, o, pw)
            while time.time() - t0 < seconds or not o["rounds"]:
                mon_round(srv, r, o, r.choice([.2, .5, 1]), pw, srv.tcp, cid); cid += 10
                o["rounds"] += 1
                if r.random() < .2: break
    return o
