"""Everything at once: every command on every protocol, churn, monitors, saves, loads, sweeps, flushes and shutdown."""
import select
from session import *
from kv import *
import session, signal

def _words(r, d, san=None):
    """A background or whole-cache command as RESP arguments, and how many replies it has."""
    x = r.random()
    f = lambda *a: [y if isinstance(y, bytes) else y.encode() for y in a]
    if x < .18: return f("STATS")
    if x < .30: return f(r.choice(["FLUSH", "FLUSHALL", "FLUSHDB"]), *r.choice([[], ["ASYNC"], ["SYNC"], ["ASYNC", "FAST"], ["FAST"]]))
    if x < .42: return f("SWEEP", *r.choice([[], ["ASYNC"], ["FAST"], ["ASYNC", "FAST"]]))
    if x < .47: return f("PURGE", *r.choice([[], ["ASYNC"]]))
    if x < .60: return f("SAVE", *r.choice([[], ["FAST"], ["TO", os.path.join(d, r.choice("ab"))], ["TO", os.path.join(d, r.choice("ab")), "FAST"]]))
    if x < .70: return f("LOAD", *r.choice([[], ["FAST"], ["FROM", os.path.join(d, r.choice("ab"))], ["FROM", os.path.join(d, r.choice("ab")), "FAST"]]))
    if x < .76: return f("DEBUG", "POPULATE", str(r.choice([10, 100, 1000]) if san != "tsan" else 20), "k", str(r.choice([1, 10, 200])), *r.choice([[], ["1-50"]]))
    if x < .84: return f("KEYS", r.choice(["*", "k*", "*1"]))
    if x < .92: return f("SCAN", "0", "COUNT", str(r.choice([1, 10, 1000])))
    return f("DBSIZE")

class Client:
    def __init__(self, srv, proto, r):
        self.proto, self.r, self.srv = proto, r, srv
        self.c = {"mc": Mc, "pgq": Pg, "pge": Pg}.get(proto, Resp)(srv.connect())
        if proto in ("pgq", "pge"): self.c.start()
        if proto == "inline":
            self.c.send(b"PING\r\n"); self.c.read(resp)
        self.want = []
    def load(self, gen, model, d, n, whole):
        r, out = self.r, []
        for _ in range(n):
            if r.random() < whole:
                w = _words(r, d, self.srv.san)
                op = Op("raw", keys=tuple(w))
                if self.proto == "mc":
                    w0 = r.choice([b"stats\r\n", b"flush_all\r\n", b"flush_all 0\r\n", b"version\r\n", b"mn\r\n", b"stats x\r\n"])
                    out.append(w0); self.want.append("mc"); continue
                if self.proto == "pgq":
                    out.append(pg_q(b" ".join(pg_lit(x) if i else x for i, x in enumerate(w)))); self.want.append(self.proto); continue
                if self.proto == "pge":
                    s = w[0] + b"".join(b" $%d" % (i + 1) for i in range(len(w) - 1))
                    out.append(pg_parse(s) + pg_bind(w[1:]) + pg_exec() + PG_SYNC); self.want.append(self.proto); continue
                out.append(enc_inline(w, r) if self.proto == "inline" else enc_resp(w)); self.want.append(self.proto)
                continue
            op = gen.op(model)
            if not can(self.proto, op): continue
            out.append(render(self.proto, op, r)); self.want.append(self.proto)
        return b"".join(out)

def storm_job(n, seconds, san, tag="storm", jitter=True):
    r = rng(tag, n)
    t0 = time.time()
    o = {"rounds": 0, "ops": 0, "conns": 0, "servers": 0, "replies": 0, "monitored": 0, "terms": 0, "restarts": 0, "kinds": set()}
    model = Model(BOOT0, REAL0, True)
    while time.time() - t0 < seconds:
        d = scratch("pgst")
        persist = os.path.join(d, "snap")
        o["servers"] += 1
        for life in range(2):
            args = ["--persist", persist, "--warmup", r.choice(["yes", "no"])] + r.choice([[], ["--cas", "yes"]]) + r.choice([[], ["--sixpack", "no"]]) \
                + r.choice([[], [], ["--maxmemory", "1"], ["--maxmemory", "1", "--evict", "no"]]) + r.choice([[], ["--queuesize", "1"]]) + r.choice([[], ["--autosweep", "no"]]) \
                + r.choice([[], [], ["--maxconns", "12"]]) + r.choice([[], ["--auth", "pw"]] if False else [[]]) + r.choice([[], ["--verbose"]] if False else [[]])
            try:
                srv = Server(args, san=san, dir=d, threads=r.choice([2, 4, 8]), shards=r.choice([1, 2, 16, 256]), tcp=r.random() < .3)
            except StartFailed as e:
                raise Violation("storm:start", f"the server does not start on its own snapshot: {e}")
            try:
                if _storm(srv, r, d, t0 + seconds, o, model, jitter) is False:
                    srv.check(); srv.kill()
                    break
                # stop in the middle of work
                cs = []
                try:
                    g = Gen(r, nkeys=20, big=False)
                    for p in ("resp", "mc", "pge"):
                        cl = Client(srv, p, r); cs.append(cl)
                        cl.c.send(cl.load(g, model, d, 60, .05))
                except (Closed, Timeout):
                    pass
                srv.check()
                srv.signal(r.choice([signal.SIGTERM, signal.SIGINT]))
                rc = srv.wait(120)
                if rc is None and san == "tsan":
                    srv.check_log(); o["slow"] = o.get("slow", 0) + 1
                    srv.kill()
                    break
                if rc is None:
                    raise Violation("storm:noexit", "the server did not exit within 120 s of the signal", {"argv": srv.argv})
                srv.check_log()
                o["terms"] += 1
                if rc != 0:
                    raise Violation(f"storm:exit{rc}", f"exit status {rc} after a termination signal: " + srv.log().decode("latin1")[-1500:], {"argv": srv.argv})
                for c in cs: c.c.close()
            except Violation:
                srv.kill(); raise
            except Exception:
                srv.check(); srv.kill(); raise
            srv.kill()
        drop_scratch(d)
    return o

def _storm(srv, r, d, end, o, model, jitter):
    gen = Gen(r, nkeys=r.choice([3, 20, 60]), big=r.random() < .3, maxlen=20000)
    cl, mons = [], []
    rounds = r.randrange(4, 12)
    ctl = None
    def drop(c):
        c.c.close()
        if c in cl: cl.remove(c)
    for rd in range(rounds):
        if time.time() > end: break
        if jitter: srv.ctl.set(jitter=r.choice([0, 0, 5, 30, 200]), preempt=r.choice([0, 0, 100]) if srv.san != "tsan" else 0)
        while len(cl) < r.choice([3, 6, 9]):
            try:
                cl.append(Client(srv, r.choice(["resp", "resp", "inline", "mc", "pgq", "pge"]), r)); o["conns"] += 1
            except (Closed, Timeout, Bad):
                srv.check(); break
        if r.random() < .4 and len(mons) < 2:
            m = Resp(srv.connect())
            try:
                m.send(b"*1\r\n$7\r\nMONITOR\r\n"); mons.append(m)
            except Closed: pass
        n = r.choice([5, 30, 100])
        active = []
        for c in list(cl):
            data = c.load(gen, model, d, n, r.choice([0, .02, .1]))
            o["ops"] += len(c.want)
            o["kinds"].add((c.proto, n, len(mons), len(cl)))
            active.append([c, data])
        # interleaved feeding: whatever the socket accepts, and drain replies meanwhile
        for a in active: a[0].c.s.setblocking(False)
        for m in mons: m.s.setblocking(False)
        tq = time.time()
        while active:
            rl = [a[0].c.s for a in active] + [m.s for m in mons]
            rd_, wr_, _ = select.select(rl, [a[0].c.s for a in active if a[1]], [], 5)
            if not rd_ and not wr_:
                srv.check()
                if time.time() - tq > 100 and srv.san == "tsan":
                    # many threads spinning on one atomic can starve a writer inside the sanitizer's runtime
                    o["slow"] = o.get("slow", 0) + 1
                    return False
                if time.time() - tq > 100:
                    raise Violation("storm:stuck", "replies are missing for 100 s: " + repr([(a[0].proto, len(a[0].want), len(a[1])) for a in active]), {"argv": srv.argv})
                continue
            for m in list(mons):
                if m.s in rd_:
                    try:
                        x = m.s.recv(1 << 20)
                        o["monitored"] += x.count(b"\n")
                        if not x: mons.remove(m)
                    except BlockingIOError: pass
                    except OSError: mons.remove(m)
            for a in list(active):
                c = a[0]
                try:
                    if c.c.s in wr_ and a[1]:
                        k = c.c.s.send(a[1][:r.choice([100, 4000, 65536])])
                        a[1] = a[1][k:]
                    if c.c.s in rd_:
                        try: x = c.c.s.recv(1 << 18)
                        except BlockingIOError: x = None
                        if x == b"": raise Closed("eof")
                        if x: c.c.buf += x; tq = time.time()
                    p = {"mc": memcache, "pgq": pgmsg, "pge": pgmsg}.get(c.proto, resp)
                    while c.want:
                        v = p(c.c.buf, c.c.pos)
                        if v is None: break
                        c.c.pos = v[1]
                        if c.proto[:2] != "pg" or v[0][0] == "Z":
                            c.want.pop(0); o["replies"] += 1
                    if c.c.pos > 1 << 18:
                        del c.c.buf[:c.c.pos]; c.c.pos = 0
                    if not c.want:
                        active.remove(a); c.c.s.settimeout(40)
                    elif r.random() < .0005:
                        active.remove(a); drop(c)         # gone in the middle of its replies
                except (Closed, OSError, Bad) as e:
                    if isinstance(e, Bad): raise Violation("storm:bad", f"{c.proto}: {e}", {"argv": srv.argv})
                    srv.check()
                    active.remove(a); drop(c)
        for c in list(cl):
            if r.random() < .25: drop(c)
        for m in list(mons):
            m.s.settimeout(5)
            if r.random() < .4: m.close(); mons.remove(m)
        for _ in range(r.randrange(4)):
            try:
                x = r.random()
                if x < .4: http_req(srv, http_put(b"h%d" % r.randrange(9), r.randbytes(50)))
                elif x < .8: http_req(srv, http_get(b"h%d" % r.randrange(9)))
                elif x < .9: http_req(srv, http_get(b""))
                else: http_req(srv, http_del(b"h%d" % r.randrange(9)))
                o["conns"] += 1
            except (Closed, Timeout): srv.check()
        o["rounds"] += 1
    for c in list(cl): drop(c)
    for m in mons: m.close()
