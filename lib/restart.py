"""Orderly termination and restart (C22)."""
from persist import *

class Writer(threading.Thread):
    """One client of its own keys over all protocols; logs every change and when it was acknowledged."""
    def __init__(self, srv, r, i, base, cas):
        super().__init__(daemon=True)
        self.r, self.i = r, i
        self.s = Session(srv, r, "", cas=cas)
        self.s.model.d.update(base)
        for k, e in base.items():
            if e.exp: self.s.model.expiring.add(k)
        self.gen = Gen(r, nkeys=8, cas=False, errors=False, whole=False, noreply=False, big=False)
        self.gen.newkey = self.newkey
        self.gen.keys = [self.newkey() for _ in range(r.choice([4, 12, 30]))] + [k for k in base][:20]
        self.log = []            # (key, entry or None, acknowledged at) or (key, "?", ...)
        self.pend = []
        self.stop = False
        self.err = None
        j0 = self.s._judge
        def judge1(proto, c, op, b):
            if self.pend: self.pend.pop(0)
            try: ok = j0(proto, c, op, b)
            except BaseException:
                # the model has applied it, the reply did not come
                for k in op.keys or ((op.key,) if op.key is not None else ()):
                    self.log.append((k, "?" if op.name in ("incr", "decr") else self.s.model.d.get(k), None))
                raise
            t = time.monotonic()
            for k in op.keys or ((op.key,) if op.key is not None else ()):
                self.log.append((k, self.s.model.d.get(k) if ok else "?", t))
            return ok
        self.s._judge = judge1
    def newkey(self):
        r = self.r
        return b"w%d:" % self.i + r.choice([b"%d" % r.randrange(50), r.randbytes(r.choice([1, 4, 20])), b"x" * r.choice([1, 60, 128])])
    def run(self):
        r, s = self.r, self.s
        try:
            while not self.stop:
                proto = r.choice(s.protos)
                n = 1 if proto == "http" else r.choice([1, 2, 5, 20])
                ops = []
                while len(ops) < n:
                    op = self.gen.op(s.model)
                    if can(proto, op): ops.append(op)
                    elif r.random() < .2: proto, ops, n = r.choice(s.protos), [], 1
                self.pend = list(zip([proto] * len(ops), ops))
                if not s.batch(proto, ops): break
                self.pend = []
        except (Closed, Timeout, Bad, OSError):
            pass
        except Violation as v:
            self.err = v
        except BaseException as e:
            self.err = e
        # what was on the way may have happened, up to any point
        m = s.model
        for proto, op in self.pend:
            if op.name in ("mget", "get", "gets", "mgets", "ttl", "pttl", "exists", "mexists", "echo", "ping"): continue
            res = m.apply(op, proto)
            for k in op.keys or ((op.key,) if op.key is not None else ()):
                self.log.append((k, "?" if res[0] == "amb" else m.d.get(k), None))
        s.close()

def read_all(c):
    ks = sorted(x[1] for x in c.cmd(b"KEYS", b"*")[1])
    out = {}
    for i in range(0, len(ks), 500):
        part = ks[i:i + 500]
        c.send(enc_resp([b"MGETS"] + part) + b"".join(enc_resp([b"PTTL", k]) for k in part))
        vals = c.read(resp)[1]
        for k, e in zip(part, vals): out[k] = (int(e[1][0][1]), e[1][2][1], c.read(resp)[1])
    return out

def agrees(e, got, env):
    """Does the observation (flags, value, pttl) or None fit the model entry?"""
    if e is None or not live(e, env.now): return got is None
    if got is None: return False
    if (e.flags, e.value) != got[:2]: return False
    if not e.exp: return got[2] == -1
    left = e.exp - env.now
    return left > HUGE and got[2] > HUGE // MS // 2 or got[2] == left // MS

def restart_job(n, seconds):
    t0 = time.time()
    o = {"cycles": 0, "keys": 0, "writes": 0, "inflight": 0, "late": 0, "kinds": set(), "loading": 0, "early": 0, "small": 0, "unknown": 0, "samples": []}
    k = 0
    while time.time() - t0 < seconds or not o["cycles"]:
        r = rng("restart", n, k); k += 1
        x = r.random()
        if x < .6: cycle_chain(r, o)
        elif x < .75: small_change(r, o)
        elif x < .87: loading_term(r, o)
        else: early_serve(r, o)
    return o

def cycle_chain(r, o):
    d = scratch("pgr")
    path = os.path.join(d, r.choice(["snap", "data.db", "x y"]))
    name = os.path.basename(path)
    nw = r.choice([1, 3, 5])
    base = [{} for _ in range(nw)]
    still = {b"s:%d" % i: (i % 3, r.randbytes(r.choice([0, 3, 50])), None) for i in range(r.choice([0, 20, 400]))}
    clocks = (BOOT0, REAL0)
    extra = {}
    try:
        for cyc in range(r.choice([2, 3, 5])):
            a, kw = rconf(r)
            cas = "--cas" in a
            p = path if r.random() < .5 else os.path.join(os.path.dirname(path), ".", name)
            if cyc:
                b1, w1 = r.choice([clocks[0], 10 ** 9 + r.randrange(10 ** 15)]), clocks[1] + r.choice([0, 0, 1, SEC, r.randrange(10 ** 10)])
                base = [shift(x, *clocks, b1, w1) for x in base]
                clocks = (b1, w1)
            with Server(["--persist", p] + a, virtual=clocks, dir=d, **kw) as srv:
                adm = Resp(srv.connect())
                if not cyc:
                    if adm.cmd(b"DBSIZE") != (":", 0): bad("restart:notempty", "a server started on a missing file has entries", argv=srv.argv)
                    if still: fill(adm, still)
                else:
                    got = read_all(adm)
                    env = Env(*clocks)
                    for i in range(nw):
                        for k, e in base[i].items():
                            if not agrees(e, got.get(k), env):
                                bad("restart:entry", f"{k!r} is {got.get(k)!r:.200} after the restart; it was {e!r:.200} when the server ended", argv=srv.argv)
                # keys whose remaining time is known only to the millisecond start afresh
                for k in extra: adm.cmd(b"DEL", k)
                extra.clear()
                srv.ctl.set(writedelay=r.choice([0, 0, 500, 3000]), jitter=r.choice([0, 0, 40]))
                ws = [Writer(srv, rng("w", r.random(), i), i, base[i], cas) for i in range(nw)]
                base0 = [dict(x) for x in base]
                for w in ws: w.start()
                time.sleep(r.choice([0, .01, .05, .2]) * r.random() + .002)
                # background work and idle, half-open and stalled company
                company = []
                for _ in range(r.randrange(5)):
                    c = Conn(srv.connect())
                    c.send(r.choice([enc_resp([b"SAVE", b"TO", os.path.join(d, "other").encode()]), enc_resp([b"SAVE"]), enc_resp([b"SAVE", b"FAST"]), enc_resp([b"SWEEP", b"ASYNC"]), enc_resp([b"SWEEP"]),
                                     enc_resp([b"MONITOR"]), enc_resp([b"KEYS", b"*"]), b"*3\r\n$3\r\nSET\r\n", enc_resp([b"PURGE"]), enc_resp([b"SCAN", b"0", b"COUNT", b"100"]), b"GET /s:1 HTTP/1.1\r\n", pg_startup(user="u"), b"set w0:x 0 0 100\r\nabc"]))
                    company.append(c)
                time.sleep(r.choice([0, 0, .003, .03]) * r.random())
                ts = time.monotonic()
                sig = r.choice([signal.SIGTERM, signal.SIGINT])
                srv.signal(sig)
                rc = srv.wait(60)
                for w in ws: w.stop = True
                for w in ws: w.join(30)
                for c in company: c.close()
                srv.check_log()
                if rc is None: bad("restart:noexit", f"the server did not end within 60 s of signal {sig}", argv=srv.argv)
                if rc != 0: bad("restart:status", f"the server ended with status {rc} after signal {sig}: {srv.log()[-400:]!r}", argv=srv.argv)
                for w in ws:
                    if w.err: raise w.err
            left = [f for f in files(d, path) if f not in (name, "other")]
            for f in left: os.unlink(os.path.join(d, f))
            if not os.path.exists(path): bad("restart:nofile", "an orderly end wrote no file", argv=srv.argv)
            # what is in the file?
            L = Loader(d, clocks)
            try:
                ok, got = L.read(path)
            finally:
                L.close()
            if not ok: bad("restart:load", "the file written at the end does not load", argv=srv.argv)
            env = Env(*clocks)
            for k, (f, v, t) in still.items():
                if got.pop(k, None) != (f, v, -1): bad("restart:still", f"{k!r}, stored long before, is missing or changed after the end", argv=srv.argv)
            for i, w in enumerate(ws):
                states, must, wild = {}, {}, set()
                for k, e in base0[i].items(): states[k] = [e]
                for k, e, t in w.log:
                    l = states.setdefault(k, [None])
                    if e == "?":
                        wild.add(k); o["unknown"] += 1
                        continue
                    if t is not None and t < ts: l.clear()        # acknowledged before the signal: nothing older counts
                    elif t is None: o["inflight"] += 1
                    else: o["late"] += 1
                    l.append(e)
                o["writes"] += len(w.log)
                nb = {}
                for k, l in states.items():
                    g = got.pop(k, None)
                    o["keys"] += 1
                    if k in wild:
                        if g is not None: nb[k] = E(g[1], env.now + g[2] * MS if g[2] >= 0 else 0, g[0], None)
                        if g is not None and g[2] >= 0: nb.pop(k); extra[k] = 1
                        continue
                    fit = [e for e in l if agrees(e, g, env)]
                    if not fit:
                        lost = g is None
                        bad("restart:lost" if lost else "restart:wrong", f"{k!r} is {g!r:.300} in the file after {signal.Signals(sig).name}; acknowledged before the signal or later: {l[:4]!r:.600}", argv=srv.argv)
                    if fit[-1] is not None and live(fit[-1], env.now): nb[k] = fit[-1]._replace(cas=None)
                base[i] = nb
            for k in got:
                if k not in extra: bad("restart:invented", f"{k!r} is in the file and nobody stored it", argv=srv.argv)
            o["cycles"] += 1
            o["kinds"].add(("cycle", min(cyc, 2), int(sig), kw["shards"], nw, len(got) > 0, "--sixpack" in a))
        if len(o["samples"]) < 2: o["samples"].append({"writers": nw, "writes": sum(len(w.log) for w in ws), "cycles": cyc + 1})
    finally:
        drop_scratch(d)

def snapshot(d, r, entries):
    path = os.path.join(d, "snap")
    with Server([], dir=d, threads=2, shards=r.choice([4, 64])) as srv:
        c = Resp(srv.connect())
        c.cmd(b"DEBUG", b"POPULATE", b"%d" % entries, b"p", b"%d" % r.choice([20, 200]))
        n = c.cmd(b"DBSIZE")[1]
        if c.cmd(b"SAVE", b"TO", path.encode(), b"FAST") != ("+", b"OK"): raise HarnessError("save")
    return path, n

def loading_term(r, o):
    """The signal arrives while the server is starting or loading."""
    d = scratch("pgr")
    try:
        path, n = snapshot(d, r, r.choice([2000, 20000, 60000]))
        orig = open(path, "rb").read()
        for _ in range(5):
            srv = Server(["--persist", path], dir=d, threads=1, shards=r.choice([1, 16]), wait=False)
            # once the log says that signals are handled, any moment may come
            t0 = time.time()
            while b"listener established" not in srv.log() and srv.alive() and time.time() - t0 < 20: time.sleep(.001)
            time.sleep(r.choice([0, .01, .05, .15, .4]) * r.random())
            srv.signal(r.choice([signal.SIGTERM, signal.SIGINT]))
            rc = srv.wait(60)
            ready = b"Ready" in srv.log()
            srv.check_log(); srv.cleanup()
            if rc is None: bad("restart:noexit", "the server did not end within 60 s of a signal during its start", argv=srv.argv)
            if rc != 0: bad("restart:status", f"status {rc} after a signal during the start: {srv.log()[-300:]!r}", argv=srv.argv)
            if not os.path.exists(path): bad("restart:loading", "a signal during the start removed the file", argv=srv.argv)
            if open(path, "rb").read() != orig:
                L = Loader(d, None)
                try:
                    L.c.cmd(b"FLUSHALL")
                    v = L.c.cmd(b"LOAD", b"FROM", path.encode(), b"FAST")
                    if v != ("+", b"OK") or L.c.cmd(b"DBSIZE") != (":", n): bad("restart:loading", f"after a signal during the start (ready: {ready}) the file holds {L.c.cmd(b'DBSIZE')} entries instead of {n}", argv=srv.argv)
                finally: L.close()
                orig = open(path, "rb").read()
            o["loading"] += 1
            o["kinds"].add(("loading", ready))
    finally:
        drop_scratch(d)

def early_serve(r, o):
    """Whoever is served at all is served the loaded data."""
    d = scratch("pgr")
    try:
        path, n = snapshot(d, r, r.choice([3000, 30000, 80000]))
        for _ in range(3):
            srv = Server(["--persist", path], dir=d, threads=r.choice([1, 4]), shards=r.choice([1, 64]), wait=False, tcp=r.random() < .3)
            srv.ctl.set(threaddelay=r.choice([0, 50000, 300000]))
            try:
                t0 = time.time(); c = None
                while c is None:
                    try: c = Resp(srv.connect(), 60)
                    except OSError:
                        srv.check()
                        if time.time() - t0 > 60: raise HarnessError("no listener")
                        time.sleep(.0005)
                before = b"Ready" not in srv.log()
                try: v = c.cmd(b"DBSIZE")
                except Closed: v = None         # refused while starting
                if v is not None and v != (":", n): bad("restart:early", f"a client served during the start saw {v!r} of {n} entries", argv=srv.argv)
                o["early"] += 1
                o["kinds"].add(("early", before, v is None))
                srv.check()
            finally:
                srv.cleanup()
    finally:
        drop_scratch(d)

def small_change(r, o):
    """One client empties, thins out or barely touches what was loaded, and waits; then the server ends."""
    d = scratch("pgr")
    path = os.path.join(d, "snap")
    clocks = (BOOT0, REAL0)
    want = None
    try:
        # company in the directory: only work files of interrupted saves are the server's to remove
        mine = [b"notes", b"snap.bak", b"a.pogocache.work.old", b"b.pogocache.worker", b"pogocache.work", b"c.pogocache", b"d.work", b"snap.1234abcd.pogocache.wor", b"work.pogocache", b"snap.00000001"]
        mine = {os.path.join(d.encode(), x): r.randbytes(r.choice([0, 5, 100])) for x in r.sample(mine, 4)}
        for x, v in mine.items(): open(x, "wb").write(v)
        os.mkdir(os.path.join(d, "dir.pogocache.work"))
        for cyc in range(r.choice([3, 4])):
            a, kw = rconf(r)
            stale = os.path.join(d, "snap.%08x.pogocache.work" % r.randrange(2 ** 31))
            if r.random() < .5: open(stale, "wb").write(b"POGO" + r.randbytes(50))
            with Server(["--persist", path] + a, virtual=clocks, dir=d, **kw) as srv:
                c = Resp(srv.connect())
                if os.path.exists(stale): bad("restart:stale", "the work file of an interrupted save is still there after a restart", argv=srv.argv)
                for x, v in mine.items():
                    if not os.path.exists(x) or open(x, "rb").read() != v: bad("restart:company", f"the file {os.path.basename(x)!r} next to the snapshot was removed or changed", argv=srv.argv)
                if not os.path.isdir(os.path.join(d, "dir.pogocache.work")): bad("restart:company", "a directory next to the snapshot was removed", argv=srv.argv)
                if want is None:
                    want = {b"e%d" % i: (i % 3, b"v%d" % i, -1 if i % 4 else 10 ** 6) for i in range(r.choice([1, 2, 40, 300]))}
                    for k, (f, v, t) in want.items():
                        if c.cmd(b"SET", k, v, b"FLAGS", b"%d" % f, *([b"PX", b"%d" % t] if t > 0 else [])) != ("+", b"OK"): raise HarnessError("set")
                got = read_all(c)
                if got != want:
                    k = next(k for k in list(want) + list(got) if got.get(k) != want.get(k))
                    bad("restart:small", f"{k!r} is {got.get(k)!r:.200} after the restart, {want.get(k)!r:.200} was left ({how}); {len(got)} entries, {len(want)} were left", argv=srv.argv)
                how = r.choice(["flush", "flushfast", "flushasync", "del", "expire", "clock", "sweep", "all but one", "nothing", "ttl", "persist", "empty key", "read"]) if cyc or r.random() < .4 else "nothing"
                ks = sorted(want)
                if how.startswith("flush"):
                    c.cmd(b"FLUSHALL", *{"flush": [], "flushfast": [b"FAST"], "flushasync": [b"ASYNC"]}[how])
                    t = time.time()
                    while c.cmd(b"DBSIZE") != (":", 0) and time.time() - t < 20: time.sleep(.002)
                    want = {}
                elif how == "del" and ks: c.cmd(b"DEL", *ks); want = {}
                elif how == "expire":
                    for k in ks: c.cmd(b"EXPIRE", k, b"-1")
                    want = {}
                elif how in ("clock", "sweep"):
                    for k in ks: c.cmd(b"SET", k, b"x", b"EX", b"10")
                    srv.advance(20 * SEC); clocks = (clocks[0] + 20 * SEC, clocks[1] + 20 * SEC)
                    if how == "sweep": c.cmd(b"SWEEP")
                    want = {}
                elif how == "all but one" and ks: c.cmd(b"DEL", *ks[1:], b"nokey"); want = {ks[0]: want[ks[0]]}
                elif how == "ttl" and ks: c.cmd(b"EXPIRE", ks[0], b"5000"); want[ks[0]] = want[ks[0]][:2] + (5000000,)
                elif how == "persist" and ks: c.cmd(b"SET", ks[0], b"plain"); want[ks[0]] = (0, b"plain", -1)
                elif how == "empty key": c.cmd(b"SET", b"", b""); want[b""] = (0, b"", -1)
                elif how == "read" and ks: c.cmd(b"MGET", *ks)
                sig = r.choice([signal.SIGTERM, signal.SIGINT])
                if r.random() < .3: c.close()
                srv.signal(sig)
                rc = srv.wait(60)
                srv.check_log()
                if rc != 0: bad("restart:status", f"the server ended with status {rc} after signal {sig}: {srv.log()[-400:]!r}", argv=srv.argv)
            o["small"] += 1; o["keys"] += len(want)
            o["kinds"].add(("small", how, int(sig), kw["shards"], len(want).bit_length()))
    finally:
        drop_scratch(d)
