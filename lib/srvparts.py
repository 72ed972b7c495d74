"""Server-level parts of the checks."""
from session import *
import session

# ---------------------------------------------------------------- statistics (C10)
COUNTED = ("cmd_get", "cmd_set", "cmd_flush", "cmd_touch", "get_hits", "get_misses", "delete_hits", "delete_misses", "incr_hits", "incr_misses",
           "decr_hits", "decr_misses", "touch_hits", "touch_misses")
def stat_ints(c):
    return {k: int(v) for k, v in c.stats().items() if v.isdigit()}
def settle(c, pred, limit=4):
    """Per-thread counters are added up when their event loop turns; polls until pred holds."""
    t0 = time.time()
    while True:
        st = stat_ints(c)
        if pred(st) or time.time() - t0 > limit:
            return st
        time.sleep(.01)
def stats_pre(srv, s):
    c = s.conn("resp")
    a = stat_ints(c)
    while True:
        time.sleep(.02)
        srv.idle()
        b = stat_ints(c)
        if all(a[k] == b[k] for k in COUNTED):
            return b
        a = b
def stats_post(srv, s, r, st, out):
    c, m = s.conn("resp"), s.model
    want = {k: m.stats.get(k, 0) for k in COUNTED}
    good = lambda x, k: want[k] <= x[k] - st[k] <= want[k] + m.slack.get(k, 0)
    got = settle(c, lambda x: all(good(x, k) for k in COUNTED))
    for k in COUNTED:
        if not good(got, k):
            raise Violation(f"stats:{k}", f"statistic {k} rose by {got[k] - st[k]}, clients caused {want[k]}",
                            {"argv": srv.argv, "want": want, "history": s.trace[-100:]})
    d = got["total_items"] - st["total_items"]
    if not m.total[0] <= d <= m.total[1]:
        raise Violation("stats:total_items", f"total_items rose by {d}, clients created {m.total} entries", {"argv": srv.argv, "history": s.trace[-200:]})
    live = m.live_items()
    if not len(live) <= got["curr_items"] <= len(m.d):
        raise Violation("stats:curr_items", f"curr_items {got['curr_items']}, expected {len(live)}..{len(m.d)}", {"argv": srv.argv})
    # bytes: exactly zero once everything is gone, however it went
    how = r.choice(["del", "flush", "expire"])
    if how == "del":
        for k in list(m.d): c.cmd("DEL", k)
    elif how == "flush": c.cmd("FLUSHALL")
    else:
        for k in list(m.d): c.cmd("EXPIRE", k, 1)
        srv.advance(2 * SEC)
    if c.cmd("SWEEP") != ("+", b"OK"):
        raise Violation("stats:sweep", "SWEEP failed")
    z = stat_ints(c)
    if z["bytes"] != 0 or z["curr_items"] != 0:
        raise Violation("stats:bytes", f"after removing everything ({how}) bytes={z['bytes']} curr_items={z['curr_items']}", {"argv": srv.argv, "history": s.trace[-200:]})
    out.setdefault("stat_comparisons", 0)
    out["stat_comparisons"] += len(COUNTED) + 4

def conn_stats_job(n, seconds):
    """Connection, authentication and size-refusal counters under churn on every protocol."""
    r = rng("c10conn", n)
    t0 = time.time()
    o = {"rounds": 0, "events": 0}
    maxc = r.choice([8, 20, 1024])
    pw = b"secret"
    with Server(["--auth", pw.decode(), "--maxconns", maxc, "--warmup", "no"], threads=r.choice([1, 2, 4])) as srv:
        obs = Resp(srv.connect())
        assert obs.cmd("AUTH", pw)[0] == "+"
        base = stat_ints(obs)
        want = {"total_connections": base["total_connections"], "auth_cmds": base["auth_cmds"], "auth_errors": base["auth_errors"],
                "rejected_connections": base["rejected_connections"], "store_too_large": base["store_too_large"]}
        opened = []
        gone = 0            # closed here, perhaps not yet by the server
        while time.time() - t0 < seconds:
            for _ in range(r.randrange(1, 12)):
                x = r.random()
                if x < .5 and len(opened) + gone < maxc - 3:
                    c = Resp(srv.connect())
                    k = r.randrange(8)
                    want["total_connections"] += 1
                    def tried(ok):
                        want["auth_cmds"] += 1; want["auth_errors"] += not ok
                    if k == 0:
                        c.cmd("AUTH", pw); tried(True)
                    elif k == 1:
                        if c.cmd("AUTH", *r.choice([[b"wrong"], [], [b"u", pw], [pw, b"x", b"y"], [pw + b"x"], [b""]]))[0] != "-": raise Violation("stats:auth", "wrong password accepted")
                        tried(False)
                    elif k == 2:
                        if c.cmd(*r.choice([[b"GET", b"k"], [b"STATS"], [b"PING"], [b"NOSUCH"]]))[0] != "-": raise Violation("stats:auth", "unauthenticated GET answered")
                        tried(False)
                    elif k == 3:
                        c = Mc(c.s)
                        c.send(b"get k\r\n")
                        if not c.read(memcache)[1].startswith(b"CLIENT_ERROR"): raise Violation("stats:auth", "unauthenticated get answered")
                        tried(False)
                    elif k == 4:
                        # sizes beyond the largest value are refused and counted
                        m = r.choice(["mc", "http"])
                        if m == "mc":
                            c = Mc(c.s)
                            c.send(b"set k 0 0 %d\r\n" % r.choice([536870913, 2 ** 40, 2 ** 63 - 1]))
                            c.read(memcache)
                        else:
                            c.send(b"PUT /k HTTP/1.1\r\nContent-Length: %d\r\n\r\n" % r.choice([536870913, 2 ** 40, 2 ** 64 - 1]))
                            c.read(http)
                        want["store_too_large"] += 1
                        c.close(); gone += 1; o["events"] += 1
                        continue
                    else:
                        how, ok = r.choice(["hdr", "q", "none"]), r.random() < .5
                        x = pw if ok else r.choice([b"wrong", pw[:-1], pw + b"1"])
                        c.send({"hdr": http_get(b"k", auth=x), "q": http_get(b"k", q=b"?auth=" + x), "none": http_get(b"k")}[how])
                        ok = ok and how != "none"
                        if (c.read(http)[1] == 401) == ok: raise Violation("stats:auth", f"HTTP request ({how}) with {'the right' if ok else 'a wrong or no'} password was decided wrongly")
                        tried(ok)
                        c.close(); gone += 1; o["events"] += 1
                        o["http"] = o.get("http", 0) + 1
                        continue
                    opened.append(c)
                elif opened:
                    opened.pop(r.randrange(len(opened))).close(); gone += 1
                o["events"] += 1
            w = dict(want, curr_connections=len(opened) + 1)
            got = settle(obs, lambda s: all(s[k] == w[k] for k in w), 5)
            for k in w:
                if got[k] != w[k]:
                    raise Violation(f"stats:{k}", f"statistic {k} is {got[k]}, clients caused {w[k]}", {"argv": srv.argv})
            o["rounds"] += 1
            gone = 0
            # beyond the limit
            if r.random() < .2:
                extra = []
                while len(opened) + 1 < maxc and maxc < 100:
                    c = Resp(srv.connect()); c.cmd("AUTH", pw); opened.append(c)
                    want["total_connections"] += 1; want["auth_cmds"] += 1
                if maxc < 100:
                    n = r.randrange(1, 4)
                    for _ in range(n):
                        c = Resp(srv.connect())
                        try:
                            rep = c.cmd("PING")
                            if rep[0] != "-": raise Violation("stats:maxconns", f"connection beyond the limit of {maxc} was served: {rep}")
                        except Closed:
                            pass
                        c.close()
                    want["rejected_connections"] += n
                    for c in opened[len(opened) // 2:]: c.close(); gone += 1
                    del opened[len(opened) // 2:]
                    gone += n
    return o

# ---------------------------------------------------------------- read-modify-write conservation (C03)
def rmw_job(n, seconds, san="asan"):
    """Clients of every protocol pour counters and appends into few keys; nothing may be lost, doubled or torn."""
    r = rng("rmw", n)
    t0 = time.time()
    o = {"rounds": 0, "ops": 0, "switches": 0, "shapes": set(), "jitters": 0}
    with Server(["--cas", "yes"], threads=r.choice([2, 4, 8]), shards=r.choice([1, 16, 1024]), san=san) as srv:
        ctl = Resp(srv.connect())
        while time.time() - t0 < seconds:
            srv.ctl.set(jitter=r.choice([0, 2, 5, 20, 100]), preempt=r.choice([0, 0, 50, 200]) if san != "tsan" else 0)
            ctl.cmd("FLUSHALL")
            K = r.choice([2, 3, 5, 8])
            nk = r.choice([1, 1, 2, 6])
            keep = {}
            for i in range(nk):
                start = r.randrange(10 ** 12, 10 ** 13)
                fl = r.choice([0, 7, 2 ** 32 - 1])
                ctl.cmd("SET", b"c%d" % i, b"%d" % abs(start), "FLAGS", fl, "EX", 100000)
                ctl.cmd("SET", b"s%d" % i, b"[start]", "FLAGS", fl, "EX", 100000)
                keep[i] = (abs(start), fl)
            m = r.choice([20, 100, 400])
            conns, plans = [], []
            same = r.random() < .4        # all increments by one: every reply must be a different number
            for c in range(K):
                proto = r.choice(["resp", "mc", "pgq", "pge"])
                cn = {"mc": Mc, "pgq": Pg, "pge": Pg}.get(proto, Resp)(srv.connect())
                if proto in ("pgq", "pge"): cn.start()
                ops = []
                for j in range(m):
                    i = r.randrange(nk)
                    x = r.random()
                    if x < .5:
                        ops.append(Op("incr" if same or proto == "mc" or r.random() < .7 else "decr", b"c%d" % i, p={"by": 1 if same else r.randrange(1, 10 ** 6)}))
                    elif x < .95:
                        ops.append(Op(r.choice(["append", "prepend"]), b"s%d" % i, b"<%d.%d>" % (c, j)))
                    else:
                        ops.append(Op("get", r.choice([b"c%d", b"s%d"]) % i))
                    if proto == "pgq" and r.random() < .0: pass
                conns.append((proto, cn)); plans.append(ops)
            datas = [[render(p, op, r) for op in ops] for (p, _), ops in zip(conns, plans)]
            # feed in slices so that the streams really run side by side
            step_ = r.choice([1, 5, 50, m])
            replies = [[] for _ in conns]
            if step_ == m:
                for (p, c), d in zip(conns, datas): c.send(b"".join(d))
                for i, (p, c) in enumerate(conns):
                    replies[i] = [read_reply(c, p) for _ in plans[i]]
            else:
                for a in range(0, m, step_):
                    for (p, c), d in zip(conns, datas): c.send(b"".join(d[a:a + step_]))
                    for i, (p, c) in enumerate(conns):
                        for _ in plans[i][a:a + step_]: replies[i].append(read_reply(c, p))
            sums = {i: 0 for i in keep}
            frags = {i: [] for i in keep}
            nums = {i: [] for i in keep}
            owners = {i: [] for i in keep}
            for (p, c), ops, reps in zip(conns, plans, replies):
                for op, rep in zip(ops, reps):
                    i = int(op.key[1:])
                    if is_err(p, rep):
                        raise Violation("rmw:error", f"{p} {_show(op)} answered {rep!r:.200}", {"argv": srv.argv})
                    if op.name in ("incr", "decr"):
                        sums[i] += op.p["by"] if op.name == "incr" else -op.p["by"]
                        v = rep[1] if p in ("resp",) else int(rep[1]) if p == "mc" else int(rep.rows[0][0])
                        nums[i].append(int(v)); owners[i].append((int(v), c))
                    elif op.name in ("append", "prepend"):
                        frags[i].append(op.val)
                    elif op.key[:1] == b"s":
                        v = rep[1] if p == "resp" else rep[1][0][2] if p == "mc" else rep.rows[0][0]
                        check_frags(v, None, srv)
            for i, (start, fl) in keep.items():
                got = ctl.cmd("MGETS", b"c%d" % i, b"s%d" % i)
                (fa, _, va), (fb, _, vb) = got[1][0][1], got[1][1][1]
                if int(va[1]) != start + sums[i]:
                    raise Violation("rmw:sum", f"counter c{i} is {va[1]!r}: started at {start}, acknowledged deltas {sums[i]}", {"argv": srv.argv, "replies": nums[i][:200]})
                if same and len(set(nums[i])) != len(nums[i]):
                    raise Violation("rmw:twice", f"two increments of c{i} reported the same number", {"argv": srv.argv})
                if same and nums[i] and sorted(nums[i]) != list(range(start + 1, start + 1 + len(nums[i]))):
                    raise Violation("rmw:gap", f"increments of c{i} did not report each number once", {"argv": srv.argv})
                check_frags(vb[1], frags[i], srv)
                if int(fa[1]) != fl or int(fb[1]) != fl:
                    raise Violation("rmw:flags", f"flags {fl} became {fa[1]!r}/{fb[1]!r}", {"argv": srv.argv})
                for k in (b"c%d", b"s%d"):
                    t = ctl.cmd("TTL", k % i)[1]
                    if not 99000 <= t <= 100000:
                        raise Violation("rmw:ttl", f"remaining life is {t} after counters and appends", {"argv": srv.argv})
                ow = [x[1] for x in sorted(owners[i], key=lambda x: x[0])] if same else []
                o["switches"] += sum(1 for a, b in zip(ow, ow[1:]) if a is not b)
                o["shapes"].add(hash(tuple(id(x) for x in ow[:64])) if ow else (i, K, m))
            o["rounds"] += 1; o["ops"] += K * m
            for _, c in conns: c.close()
        o["jitters"] = srv.ctl.jitters
    return o
_FR = re.compile(rb"<\d+\.\d+>|\[start\]")
def check_frags(v, want, srv):
    parts = _FR.findall(v)
    if b"".join(parts) != v:
        raise Violation("rmw:torn", f"appended fragments are broken: {v[:300]!r}", {"argv": srv.argv})
    if len(set(parts)) != len(parts):
        raise Violation("rmw:dup", "a fragment appears twice", {"argv": srv.argv, "value": v[:4000]})
    if b"[start]" not in parts:
        raise Violation("rmw:lost", "the original value is gone", {"argv": srv.argv, "value": v[:4000]})
    if want is not None and sorted(parts) != sorted(want + [b"[start]"]):
        raise Violation("rmw:frag", f"{len(want)} fragments acknowledged, {len(parts) - 1} present", {"argv": srv.argv, "value": v[:4000]})
from session import _show
import re

# ---------------------------------------------------------------- many CAS stores, one winner (C04)
def cas_job(n, seconds):
    r = rng("casrace", n)
    t0 = time.time()
    o = {"rounds": 0, "stores": 0, "contended": 0, "winners": set(), "created": 0}
    with Server(["--cas", "yes"], threads=r.choice([2, 4, 8]), shards=r.choice([1, 64, 1024])) as srv:
        ctl = Resp(srv.connect())
        shown = {}
        while time.time() - t0 < seconds:
            srv.ctl.set(jitter=r.choice([0, 3, 10, 50]), preempt=r.choice([0, 0, 50, 200]))
            K = r.choice([2, 4, 8]); nk = r.choice([1, 10, 60])
            ks = [b"k%d" % i for i in range(nk)]
            protos = [r.choice(["resp", "mc", "pgq", "pge"]) for _ in range(K)]
            conns = [{"mc": Mc, "pgq": Pg, "pge": Pg}.get(p, Resp)(srv.connect()) for p in protos]
            for p, c in zip(protos, conns):
                if p[:2] == "pg": c.start()
            for k in ks:
                how = r.choice(["set", "recreate", "touch", "append", "keep"])
                if how == "set": ctl.cmd("SET", k, "x")
                elif how == "recreate": ctl.cmd("DEL", k); ctl.cmd("SET", k, "x"); o["created"] += 1
                elif how == "touch": ctl.cmd("SET", k, "x", "XX"); ctl.cmd("SET", k, "x", "NX"); ctl.cmd("EXPIRE", k, 1000)
                elif how == "append": ctl.cmd("APPEND", k, "x")
                else: ctl.cmd("SET", k, "x", "NX")
            def versions(dup):
                out = {}
                rep = ctl.cmd("MGETS", *ks)[1]
                for k, x in zip(ks, rep):
                    v = int(x[1][1][1]); out[k] = (v, x[1][2][1])
                    if dup and v in shown.setdefault(k, {}) and shown[k][v] != out[k][1]:
                        raise Violation("cas:reused", f"CAS value {v} of {k!r} names two versions", {"argv": srv.argv})
                    shown[k][v] = out[k][1]
                return out
            v0 = versions(True)
            vals = {}
            wins = {k: [] for k in ks}
            datas = []
            for i, p in enumerate(protos):
                ops = [Op("set", k, b"w%d.%d.%d" % (i, o["rounds"], j), {"cas": v0[k][0]}) for j, k in enumerate(ks)]
                if r.random() < .5: r.shuffle(ops)
                vals[i] = ops
                datas.append(b"".join(render(p, op, r) for op in ops))
            for c, d in zip(conns, datas): c.send(d)
            for i, (p, c) in enumerate(zip(protos, conns)):
                for op in vals[i]:
                    rep = read_reply(c, p)
                    won = {"resp": rep == ("+", b"OK"), "mc": rep == ("line", b"STORED")}.get(p) if p[:2] != "pg" else rep.tag == b"SET 1"
                    lost = {"resp": rep == NULL, "mc": rep == ("line", b"EXISTS")}.get(p) if p[:2] != "pg" else rep.tag == b"SET 0"
                    if not won and not lost:
                        raise Violation("cas:reply", f"{p} CAS store answered {rep!r:.200}", {"argv": srv.argv})
                    if won: wins[op.key].append((i, op.val))
                    o["stores"] += 1
            v1 = versions(True)
            for k in ks:
                if len(wins[k]) != 1:
                    raise Violation(f"cas:winners:{min(len(wins[k]), 2)}", f"{len(wins[k])} of {K} concurrent CAS stores naming version {v0[k][0]} of {k!r} succeeded", {"argv": srv.argv})
                if v1[k][1] != wins[k][0][1]:
                    raise Violation("cas:value", f"{k!r} holds {v1[k][1]!r}, the successful store wrote {wins[k][0][1]!r}", {"argv": srv.argv})
                if v1[k][0] == v0[k][0]:
                    raise Violation("cas:same", f"CAS value of {k!r} did not change with the store", {"argv": srv.argv})
                o["contended"] += 1
            o["winners"].add(tuple(wins[k][0][0] for k in ks[:24]))
            o["rounds"] += 1
            for c in conns: c.close()
    return o

# ---------------------------------------------------------------- expiration matrix (C05)
def expiry_matrix_job(n, parts):
    """Every way to set an expiration x every operation observing it x one unit before, at and after the instant."""
    r = rng("matrix", n)
    setters = []
    for proto in PROTOS:
        for t in (("ex", 5), ("px", 5000), ("exat", None), ("pxat", None), ("ex", 2592001 + 10 ** 9)):
            setters.append((proto, "set", t))
        for x in (5, 2592000):
            setters.append((proto, "expire", x))
        if proto == "mc":
            setters += [(proto, "set", ("ex", "unix")), (proto, "expire", "unix")]
    obs = []
    for proto in PROTOS:
        for op in [Op("get", b"K"), Op("gets", b"K"), Op("exists", b"K"), Op("touch", b"K"), Op("ttl", b"K"), Op("pttl", b"K"), Op("incr", b"K"), Op("decr", b"K", p={"u": True}),
                   Op("append", b"K", b"7"), Op("prepend", b"K", b"7"), Op("set", b"K", b"1", {"cond": "nx"}), Op("set", b"K", b"1", {"cond": "xx"}),
                   Op("set", b"K", b"1", {"get": True}), Op("set", b"K", b"1", {"keepttl": True}), Op("set", b"K", b"1", {"cas": 0}), Op("del", b"K"), Op("expire", b"K", p={"by": 100}),
                   Op("mget", keys=(b"K", b"other")), Op("mgets", keys=(b"other", b"K")), Op("mexists", keys=(b"K", b"K")), Op("mtouch", keys=(b"K",)), Op("mdel", keys=(b"K", b"other")),
                   Op("keys", val=b"*"), Op("set", b"K", b"5")]:
            if can(proto, op): obs.append((proto, op))
    work = [(s, ob, off) for s in setters for ob in obs for off in (-1, 0, 1)]
    r.shuffle(work)
    work = work[n::parts]
    if not THOROUGH:
        work = work[:900]
    o = {"cases": 0, "kinds": set()}
    with Server(["--cas", "yes"] + (["--autosweep", "no"] if n % 2 else []), virtual=True, shards=4) as srv:
        s = Session(srv, r, "PBKFE", cas=True)
        for i, ((proto, how, x), (oproto, oop), off) in enumerate(work):
            k = b"m%d" % i
            val = b"10"
            if how == "set":
                t = x
                if t[1] is None:
                    t = (t[0], s.model.env.real // (SEC if t[0] == "exat" else MS) + (6 if t[0] == "exat" else 5000))
                if t[1] == "unix": t = ("ex", s.model.env.real // SEC + 7)
                op = Op("set", k, val, {"ttl": t})
                if not can(proto, op): continue
                s.batch(proto, [op])
            else:
                by = s.model.env.real // SEC + 7 if x == "unix" else x
                s.batch("resp", [Op("set", k, val)])
                op = Op("expire", k, p={"by": by})
                if not can(proto, op): continue
                s.batch(proto, [op])
            exp = s.model.d[k].exp
            s.batch("resp", [Op("gets", k)])
            if exp - s.model.env.now > 10 ** 7 * SEC:
                # far away: only the remaining time is compared, the clock does not go there
                s.batch("resp", [Op("pttl", k)])
                o["cases"] += 1
                continue
            s.advance(max(0, exp + off - s.model.env.now))
            p = dict(oop.p)
            if "cas" in p: p["cas"] = s.model.d[k].cas
            sub = lambda y: k if y == b"K" else y
            oop = oop._replace(key=sub(oop.key) if oop.key else None, keys=tuple(sub(y) for y in oop.keys), p=p)
            s.batch(oproto, [oop])
            s.batch("resp", [Op("gets", k), Op("pttl", k), Op("del", k)])
            o["cases"] += 1
            o["kinds"].add((proto, how, str(x), oproto, oop.name, tuple(sorted(p)), off))
            if len(s.conns) > 3 and r.random() < .01: s.close()
            if s.abandoned: raise HarnessError(s.abandoned)
        epoch_cases(s, r, o)
        s.close()
    return o

def epoch_cases(s, r, o):
    """Expirations that land at or around the zero of the server's clock, long before now: the entry is gone."""
    for i in range(60 if not THOROUGH else 600):
        env = s.model.env
        whole = r.choice([SEC, SEC, MS])
        s.advance((-env.now) % whole if r.random() < .8 else r.choice([1, 999]))
        k = b"z%d" % i
        off = r.choice([-1, 0, 0, 0, 1])
        how = r.choice(["expire", "expire", "set"])
        if how == "expire":
            s.batch("resp", [Op("set", k, b"10")])
            op = Op("expire", k, p={"by": -(env.now // SEC) + off})
        else:
            u = r.choice(["exat", "pxat"])
            q = SEC if u == "exat" else MS
            op = Op("set", k, b"10", {"ttl": (u, (env.real - env.now) // q + off)})
        proto = r.choice([p for p in PROTOS if can(p, op)])
        s.batch(proto, [op])
        s.batch(r.choice(["resp", "inline"]), [Op("gets", k), Op("pttl", k), Op("exists", k)])
        o["cases"] += 1
        o["kinds"].add(("epoch", proto, how, off, whole))
        if s.abandoned: raise HarnessError(s.abandoned)

# ---------------------------------------------------------------- byte exactness over protocol pairs (C07)
def bytes_job(n, seconds, lens_full):
    r = rng("bytes", n)
    t0 = time.time()
    o = {"pairs": 0, "bytes": 0, "kinds": set(), "maxlen": 0}
    with Server((["--keysixpack", "no"] if n % 2 else []) + ["--cas", "yes"], threads=2, shards=r.choice([1, 16, 512])) as srv:
        s = Session(srv, r, "PBF", cas=True)
        big = [65535, 65536, 65537, 131072, 262143, 1000000, 1 << 20, 2097151, 2097152, 3000001] + ([16 << 20, (1 << 24) + 1] if THOROUGH or n == 1 else [])
        lens = list(range(0, 301)) + [510, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 16382, 16383, 16384, 16385, 32767, 32768] + big
        keylens = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 200, 249, 250]
        allb = bytes(range(256))
        work = [(w, rd, l) for w in PROTOS for rd in PROTOS for l in lens]
        r.shuffle(work)
        i = 0
        pend = []
        for w, rd, l in work:
            if time.time() - t0 > seconds: break
            i += 1
            if l > 70000 and i % 3: continue
            fill = r.randrange(6)
            if fill == 0: v = allb * (l // 256 + 1)
            elif fill == 1: v = bytes([r.choice([0, 10, 13, 32, 39, 34, 92, 255])]) * l
            elif fill == 2: v = b"\r\nEND\r\nVALUE x 0 1\r\n$-1\r\n" * (l // 20 + 1)
            else: v = r.randbytes(l)
            v = v[:l]
            kl = r.choice(keylens) if r.random() < .9 else r.choice([251, 255, 256, 257, 300, 511, 512, 513, 1000, 4096, 16383, 16384, 65535, 65536, 70000])
            kk = r.randrange(5)
            if kk == 0: k = r.randbytes(kl)
            elif kk == 1: k = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:") for _ in range(kl))
            elif kk == 2: k = bytes([r.choice(b"aZ9_.-/~!")]) * kl
            elif kk == 3: k = bytes([r.randrange(256)]) * kl
            else: k = bytes(r.choice(b"abcdefgh0123") for _ in range(kl - 1)) + bytes([r.randrange(256)])
            p = {"flags": r.choice([0, 1, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 32)])} if r.random() < .4 else {}
            wop, rop = Op("set", k, v, p), r.choice([Op("get", k), Op("gets", k)])
            if rd == "http": rop = Op("get", k)
            if not can(w, wop): w = r.choice(["resp", "pge"])
            if not can(rd, rop): rd = r.choice(["resp", "pge"])
            for proto, op in ((w, wop), (rd, rop)):
                if not s.batch(proto, [op]):
                    raise HarnessError(s.abandoned)
            o["pairs"] += 1; o["bytes"] += l; o["maxlen"] = max(o["maxlen"], l)
            o["kinds"].add((w, rd, l.bit_length() if l > 300 else l, kk))
            if r.random() < .02:
                keys = list(s.model.d)
                ks = r.sample(keys, min(len(keys), 40))
                if not s.batch("resp", [Op("gets", k) for k in ks]): raise HarnessError(s.abandoned)
            if len(s.model.d) > 3000 or sum(len(e.value) for e in s.model.d.values()) > 3 * 10 ** 8:
                if not s.final(): raise HarnessError(s.abandoned)
                s.batch("resp", [Op("flush")])
        if not s.final(): raise HarnessError(s.abandoned)
        s.close()
    return o

# ---------------------------------------------------------------- KEYS and SCAN (C08)
class Bulk:
    """A plain RESP reader for very long replies."""
    def __init__(self, s):
        self.s = s; s.settimeout(120); self.f = s.makefile("rb", 1 << 20)
    def send(self, b): self.s.sendall(b)
    def read(self):
        l = self.f.readline()
        if not l.endswith(b"\r\n"): raise Violation("big:reply", f"cut reply {l[:60]!r}")
        t, n = l[:1], l[1:-2]
        if t == b"*": return [self.read() for _ in range(int(n))]
        if t == b"$":
            if n == b"-1": return None
            v = self.f.read(int(n) + 2)
            if v[-2:] != b"\r\n": raise Violation("big:reply", "a bulk string without its end")
            return v[:-2]
        if t == b":": return int(n)
        if t == b"-": raise Violation("big:error", f"unexpected error {l!r}")
        return n
    def cmd(self, *a):
        self.send(enc_resp([x if isinstance(x, bytes) else str(x).encode() for x in a])); return self.read()

def bigscan_job(n, nkeys, shards):
    """KEYS, SCAN, DBSIZE, SWEEP and FLUSHALL over tables larger than the small numbers in the code."""
    r = rng("bigscan", n)
    o = {"keys": 0, "calls": 0, "scans": 0}
    with Server(r.choice([[], ["--loadfactor", "90"], ["--sixpack", "no"]]), virtual=True, shards=shards, threads=r.choice([1, 2])) as srv:
        c = Bulk(srv.connect())
        nkeys += r.randrange(nkeys // 8)
        pop = nkeys // 2
        c.cmd("DEBUG", "POPULATE", pop, "p", r.choice([0, 1, 9]))
        keys = {b"p:%d" % i for i in range(pop)}
        exp = {b"s%x" % i for i in range(nkeys - pop) if i % 3 == 0}
        every = sorted({b"s%x" % i for i in range(nkeys - pop)})
        for i in range(0, len(every), 2000):
            c.send(b"".join(enc_resp([b"SET", k, b"v" + k] + ([b"EX", b"50"] if k in exp else [])) for k in every[i:i + 2000]))
            for k in every[i:i + 2000]:
                if c.read() != b"OK": raise Violation("big:set", "SET failed", {"argv": srv.argv})
        keys |= set(every)
        def look(what):
            want = len(keys)
            if c.cmd("DBSIZE") != want: raise Violation("big:dbsize", f"DBSIZE after {what} is not {want}", {"argv": srv.argv})
            _setcmp(srv, "KEYS of a big table", what, keys, c.cmd("KEYS", "*"))
            pat = r.choice([b"p:*7", b"s*f?", b"*11*"])
            _setcmp(srv, "KEYS of a big table", pat, [k for k in keys if glob(pat, k)], c.cmd("KEYS", pat))
            cur, got = b"0", []
            cnt = r.choice([1000, 5000, 70000, 10 ** 6])
            while True:
                rep = c.cmd("SCAN", cur, "COUNT", cnt)
                cur = rep[0]; got += rep[1]; o["calls"] += 1
                if cur == b"0": break
                if len(got) > 3 * want + 5000 or o["calls"] > 30000: raise Violation("scan:endless", f"SCAN COUNT {cnt} did not come back to cursor 0 over {nkeys} keys", {"argv": srv.argv})
            _setcmp(srv, f"SCAN of a big table", what, keys, got)
            o["scans"] += 3; o["keys"] = max(o["keys"], want)
        look("filling")
        gone = r.sample(sorted(keys), nkeys // 3)
        for i in range(0, len(gone), 3000):
            part = gone[i:i + 3000]
            if c.cmd("DEL", *part) != len(part): raise Violation("big:del", "DEL of present keys counted fewer", {"argv": srv.argv})
        keys -= set(gone)
        look("deleting a third")
        srv.advance(51 * SEC)
        dead = keys & exp
        keys -= exp
        _setcmp(srv, "KEYS of a big table", "after expiry", keys, c.cmd("KEYS", "*"))
        c.cmd("SWEEP")
        look("sweeping")
        vals = c.cmd("MGET", *sorted(exp)[:50000])
        if any(v is not None for v in vals): raise Violation("big:expired", "MGET shows expired keys", {"argv": srv.argv})
        c.cmd("FLUSHALL")
        keys.clear(); look("flushing")
    return o

def scan_job(n, seconds):
    r = rng("scan", n)
    t0 = time.time()
    o = {"contents": 0, "scans": 0, "calls": 0, "keys": 0, "hostile": 0, "kinds": set()}
    with Server([], virtual=True, shards=r.choice([1, 2, 7, 64, 1024]), threads=2) as srv:
        c = Resp(srv.connect())
        mc, pg = Mc(srv.connect()), Pg(srv.connect())
        pg.start()
        while time.time() - t0 < seconds:
            c.cmd("FLUSHALL")
            N = r.choice([0, 1, 2, 5, 30, 200, 1500])
            keys = set()
            while len(keys) < N:
                keys.add(r.choice([b"k%d" % r.randrange(10 ** 6), r.randbytes(r.randrange(0, 20)), b"user:%d" % r.randrange(1000), bytes([r.randrange(256)]) * r.randrange(1, 9)]))
            for _ in range(r.choice([0, 0, 1, 3]) if N else 0): keys.add(b"k1%04d" % r.randrange(10000) + b"x" * r.choice([125, 128, 250, 16380, 16384, 40000, 70000]))
            exp = set()     # the ones that expire
            cmds = []
            for k in keys:
                e = r.random() < .2
                if e: exp.add(k)
                cmds.append(enc_resp([b"SET", k, b"v"] + ([b"EX", b"5"] if e else [])))
            for i in range(0, len(cmds), 200):
                c.send(b"".join(cmds[i:i + 200]))
                for _ in cmds[i:i + 200]: c.read(resp)
            if r.random() < .3:
                m = r.choice([1, 3, 9, 100, 1003])
                if c.cmd("DEBUG", "POPULATE", m, "k1", r.choice([0, 1, 40])) == ("+", b"OK"): keys |= {b"k1:%d" % i for i in range(m)}
            for k in list(keys):
                if r.random() < .2:
                    c.cmd("DEL", k); keys.discard(k)
            if r.random() < .6:
                srv.advance(6 * SEC); keys -= exp
            o["contents"] += 1; o["keys"] += len(keys)
            for pat in [b"*"] + r.sample([b"k*", b"user:?", b"*1*", b"", b"?", b"*\\*", b"k1*9", b"**", b"\\u*"], 3):
                want = sorted(k for k in keys if glob(pat, k))
                got = [x[1] for x in c.cmd("KEYS", pat)[1]]
                _setcmp(srv, "KEYS", pat, want, got)
                if b"\0" not in pat:
                    rep = pg_sum(pg.query(b"KEYS " + pg_lit(pat)))
                    _setcmp(srv, "KEYS(pg)", pat, want, [x[0] for x in rep.rows])
                    if rep.tag != b"KEYS %d" % len(want): raise Violation("scan:tag", f"tag {rep.tag} for {len(want)} keys")
                for form in range(2):
                    cur, got, calls = b"0", [], 0
                    cnt = r.choice([None, 1, 2, 7, 10, 100, 10 ** 6, 2 ** 31 - 1])
                    args = ([b"MATCH", pat] if pat != b"*" or r.random() < .3 else []) + ([b"COUNT", b"%d" % cnt] if cnt else []) + ([b"TYPE", b"string"] if r.random() < .2 else [])
                    prev = None
                    while True:
                        if form == 0:
                            rep = c.cmd("SCAN", cur, *args)
                            if rep[0] != "*" or len(rep[1]) != 2: raise Violation("scan:reply", f"SCAN answered {rep!r:.200}")
                            cur = rep[1][0][1]; ks = [x[1] for x in rep[1][1][1]]
                        else:
                            if b"\0" in pat: break
                            rep = pg_sum(pg.query(b"SCAN " + cur + b" " + b" ".join(pg_lit(a) for a in args)))
                            if rep.err is not None: raise Violation("scan:pgerr", f"SCAN error {rep.err}")
                            ks = [x[0] for x in rep.rows]
                            if not rep.rows:
                                # no row carries a cursor: only a finished scan may say nothing
                                rp = c.cmd("SCAN", cur, *args); cur = rp[1][0][1]
                            else:
                                cur = rep.rows[-1][1]
                        got += ks
                        calls += 1
                        if cnt and cnt >= 10 and len(ks) > cnt + 10 ** 5: raise Violation("scan:count", "far more keys than COUNT")
                        if cur == b"0": break
                        if calls > 20000 + 10 * N: raise Violation("scan:endless", f"SCAN with {args} did not come back to cursor 0 after {calls} calls over {N} keys", {"argv": srv.argv})
                    else:
                        pass
                    if form == 1 and b"\0" in pat: continue
                    _setcmp(srv, "SCAN" + (" pg" if form else ""), pat, want, got)
                    o["scans"] += 1; o["calls"] += calls
                    o["kinds"].add((N, len(want).bit_length(), cnt, form, pat, calls.bit_length()))
            for _ in range(20):
                cur = r.choice([r.randrange(2 ** 64), 2 ** 64 - 1, 2 ** 63, r.randrange(2 ** 32), r.randrange(2 ** 32) << 32, 1, (1 << 32) - 1, r.randrange(4096) << 48])
                rep = c.cmd("SCAN", b"%d" % cur, "COUNT", r.choice([1, 10, 1000]))
                o["hostile"] += 1
                if rep[0] == "-": continue
                ks = [x[1] for x in rep[1][1][1]]
                if set(ks) - keys: raise Violation("scan:invented", f"SCAN {cur} returned keys that are not live: {list(set(ks) - keys)[:5]}", {"argv": srv.argv})
                if len(set(ks)) != len(ks): raise Violation("scan:dup1", f"SCAN {cur} returned a key twice in one reply", {"argv": srv.argv})
            for bad in ([b"SCAN", b"-1"], [b"SCAN", b"18446744073709551616"], [b"SCAN", b"0", b"COUNT", b"0"], [b"SCAN", b"0", b"COUNT"], [b"SCAN", b"0", b"MATCH"], [b"SCAN", b"0", b"COUNT", b"-5"]):
                if c.cmd(*bad)[0] != "-": raise Violation("scan:badarg", f"{bad} was not refused")
        for x in (c, mc, pg): x.close()
    return o
def _setcmp(srv, what, pat, want, got):
    if sorted(got) == sorted(want): return
    import collections
    a, b = collections.Counter(want), collections.Counter(got)
    raise Violation(f"scan:{what}:" + ("dup" if any(v > 1 for v in b.values()) else "missing" if a - b else "extra"),
                    f"{what} {pat!r}: missing {list((a - b))[:5]}, unexpected {list((b - a))[:5]} of {len(want)}", {"argv": srv.argv, "want": sorted(want)[:50], "got": sorted(got)[:50]})

# ---------------------------------------------------------------- memory limit (C06)
def content(c, keys=None):
    ks = [x[1] for x in c.cmd("KEYS", "*")[1]] if keys is None else list(keys)
    out = {}
    for i in range(0, len(ks), 500):
        part = ks[i:i + 500]
        rep = c.cmd("MGETS", *part)
        for k, x in zip(part, rep[1]):
            if x != NULL: out[k] = (x[1][2][1], int(x[1][0][1]))
    return out
def lowmem_evict_job(n, seconds):
    r = rng("lowmem", n)
    o = {"inserts": 0, "overwrites": 0, "evicted": 0, "self": 0}
    shards = r.choice([1, 2, 8, 64])
    with Server(["--maxmemory", "1", "--cas", "yes"] + r.choice([[], ["--evict", "yes"]]), shards=shards) as srv:
        c, mc, pg = Resp(srv.connect()), Mc(srv.connect()), Pg(srv.connect())
        pg.start()
        # the limit is noticed by a one second ticker: wait until inserting stops growing the cache
        t0 = time.time(); i = 0
        while True:
            i += 1
            a = len(c.cmd("KEYS", "*")[1])
            for _ in range(4 * shards + 20):
                i += 1; c.cmd("SET", b"fill%d" % i, "x")
            if len(c.cmd("KEYS", "*")[1]) <= a: break
            if time.time() - t0 > 15:
                raise Violation("lowmem:grow", "the number of entries keeps growing although the memory limit of 1 byte is exceeded", {"argv": srv.argv})
            time.sleep(.1)
        t0 = time.time()
        while time.time() - t0 < seconds:
            before = content(c)
            x = r.random()
            nk = b"new%d" % o["inserts"]
            val = r.randbytes(r.randrange(30))
            if x < .7:
                k, how = nk, r.choice(["set", "mc", "pg", "http", "incr", "append", "setex", "nx"])
                o["inserts"] += 1
            else:
                k, how = r.choice(list(before)) if before else nk, r.choice(["set", "mc", "pg", "append", "setex", "http"])
                o["overwrites"] += 1
            if how == "set": ok = c.cmd("SET", k, val) == ("+", b"OK"); want = val
            elif how == "nx": ok = c.cmd("SET", k, val, "NX") == ("+", b"OK"); want = val
            elif how == "setex": ok = c.cmd("SETEX", k, 1000, val) == ("+", b"OK"); want = val
            elif how == "mc": ok = mc.cmd(b"set %s 0 0 %d\r\n%s\r\n" % (k, len(val), val)) == ("line", b"STORED"); want = val
            elif how == "http": ok = http_req(srv, http_put(k, val))[1] == 200; want = val
            elif how == "pg":
                m = pg_sum(pg.ext(b"SET $1 $2", [k, val])); ok = m.tag == b"SET 1"; want = val
            elif how == "incr": ok = c.cmd("INCR", k) == (":", 1); want = b"1"
            else:
                want = before.get(k, (b"", 0))[0] + val
                ok = c.cmd("APPEND", k, val) == (":", len(want))
            if not ok:
                raise Violation("lowmem:refused:" + how, f"{how} of {k!r} was refused although eviction is allowed", {"argv": srv.argv})
            got = c.cmd("GET", k)
            if got != ("$", want):
                raise Violation("lowmem:unreadable:" + how, f"{k!r} stored under low memory reads {got!r:.100}", {"argv": srv.argv})
            after = content(c)
            gone = set(before) - set(after)
            extra = set(after) - set(before) - {k}
            if extra: raise Violation("lowmem:invented", f"entries appeared: {extra}", {"argv": srv.argv})
            for kk in after:
                if kk != k and after[kk] != before[kk]: raise Violation("lowmem:changed", f"{kk!r} changed", {"argv": srv.argv})
            if k in before and gone: raise Violation("lowmem:overwrite", f"overwriting {k!r} ({how}) removed {gone}", {"argv": srv.argv})
            if len(gone) > 1: raise Violation("lowmem:many", f"one new entry removed {len(gone)} entries", {"argv": srv.argv})
            if len(after) > max(len(before), 2 * shards): raise Violation("lowmem:growing", f"entries grew from {len(before)} to {len(after)} over the limit", {"argv": srv.argv})
            o["evicted"] += len(gone)
        c.close(); mc.close(); pg.close()
    return o
def lowmem_refuse_job(n, seconds):
    r = rng("lowmem0", n)
    o = {"refusals": 0, "comparisons": 0, "hows": set()}
    d = scratch("pgl")
    f = os.path.join(d, "snap")
    a = Server(["--cas", "yes"], dir=d)
    c = Resp(a.connect())
    for i in range(60):
        c.cmd("SET", b"k%d" % i, r.randbytes(r.randrange(40)), "FLAGS", i, *(["EX", 100000] if i % 3 == 0 else []))
    for i in range(20): c.cmd("SET", b"n%d" % i, i)
    if c.cmd("SAVE", "TO", f) != ("+", b"OK"): raise Violation("lowmem:save", "SAVE failed")
    c.close(); a.stop()
    with Server(r.choice([["--maxmemory", "1", "--evict", "no"], ["--maxmemory", "1k", "--evict", "no"]]) + ["--cas", "yes", "--persist", f], dir=d) as srv:
        c, mc, pg = Resp(srv.connect()), Mc(srv.connect()), Pg(srv.connect())
        pg.start()
        t0 = time.time()
        while c.cmd("SET", "probe", "x")[0] != "-":
            if time.time() - t0 > 15: raise Violation("lowmem:norefuse", "stores over the memory limit are accepted although eviction is disabled", {"argv": srv.argv})
            time.sleep(.1)
        c.cmd("DEL", "probe")
        before = content(c)
        ttl0 = {k: c.cmd("TTL", k)[1] > 0 for k in before}
        base = stat_ints(c)["store_no_memory"]
        t0 = time.time(); nref = 0
        while time.time() - t0 < seconds:
            k = r.choice([b"k%d" % r.randrange(60), b"n%d" % r.randrange(20), b"fresh%d" % r.randrange(1000)])
            num_ = k[:1] == b"n" or k[:1] == b"f"
            how = r.choice(["set", "setget", "nx", "xx", "setex", "mcset", "mcadd", "mcappend", "mcincr", "http", "pgset", "pgincr", "incr", "decrby", "append", "prepend", "keepttl"])
            present = k in before
            v = r.randbytes(10)
            if how == "set": rep, p = c.cmd("SET", k, v), "resp"
            elif how == "setget": rep, p = c.cmd("SET", k, v, "GET"), "resp"
            elif how == "keepttl": rep, p = c.cmd("SET", k, v, "KEEPTTL"), "resp"
            elif how == "nx":
                rep, p = c.cmd("SET", k, v, "NX"), "resp"
                if present and rep == NULL: continue
            elif how == "xx":
                rep, p = c.cmd("SET", k, v, "XX"), "resp"
                if not present and rep == NULL: continue
            elif how == "setex": rep, p = c.cmd("SETEX", k, 10, v), "resp"
            elif how == "mcset": rep, p = mc.cmd(b"set %s 1 0 10\r\n%s\r\n" % (k, v)), "mc"
            elif how == "mcadd":
                rep, p = mc.cmd(b"add %s 1 0 10\r\n%s\r\n" % (k, v)), "mc"
                if present and rep[1] in (b"EXISTS", b"NOT_STORED"): continue
            elif how == "mcappend":
                rep, p = mc.cmd(b"append %s 1 0 10\r\n%s\r\n" % (k, v)), "mc"
                if not present and rep[1] == b"NOT_STORED": continue
            elif how == "mcincr":
                rep, p = mc.cmd(b"incr %s 1\r\n" % k), "mc"
                if not present and rep[1] == b"NOT_FOUND": continue
                if not num_: continue
            elif how == "http": rep, p = http_req(srv, http_put(k, v)), "http"
            elif how == "pgset": rep, p = pg_sum(pg.ext(b"SET $1 $2", [k, v])), "pge"
            elif how == "pgincr": rep, p = pg_sum(pg.query(b"INCR " + k)), "pgq"
            elif how == "incr": rep, p = c.cmd("INCR", k), "resp"
            elif how == "decrby": rep, p = c.cmd("DECRBY", k, 3), "resp"
            elif how == "append": rep, p = c.cmd("APPEND", k, v), "resp"
            else: rep, p = c.cmd("PREPEND", k, v), "resp"
            if not is_err(p, rep):
                raise Violation("lowmem:accepted:" + how, f"{how} of {k!r} over the memory limit answered {rep!r:.120} although eviction is disabled", {"argv": srv.argv})
            if how not in ("incr", "decrby", "pgincr") or num_: nref += 1
            o["refusals"] += 1; o["hows"].add((how, present))
            if r.random() < .05:
                after = content(c)
                o["comparisons"] += len(before)
                if after != before:
                    raise Violation("lowmem:damaged", f"a refused store changed the content: missing {set(before) - set(after)}, new {set(after) - set(before)}, "
                                    f"changed {[x for x in after if after[x] != before.get(x)]}"[:500], {"argv": srv.argv})
                for kk in r.sample(list(before), 10):
                    if (c.cmd("TTL", kk)[1] > 0) != ttl0[kk]: raise Violation("lowmem:ttl", f"a refused store changed the expiration of {kk!r}", {"argv": srv.argv})
        st = stat_ints(c)["store_no_memory"]
        if st - base < nref * .5 or st - base > o["refusals"] + 5:
            raise Violation("lowmem:stat", f"store_no_memory rose by {st - base} for {nref} refusals", {"argv": srv.argv})
        for k in list(before)[:10]:
            if c.cmd("DEL", k) != (":", 1): raise Violation("lowmem:del", "DEL refused under low memory")
        for x in (c, mc, pg): x.close()
    drop_scratch(d)
    return o

# ------------------------------------------------------------------ statistics of clients that work at the same time (C10)
class OwnGen(Gen):
    def newkey(self):
        return self.prefix + Gen.newkey(self)[:240]
    def __init__(self, r, prefix, **kw):
        self.prefix = prefix
        Gen.__init__(self, r, **kw)

def conc_stats_job(n, seconds):
    """Every client works on keys of its own, so its outcomes are known; together they must give the statistics."""
    import threading
    r = rng("c10conc", n)
    t0 = time.time()
    o = {"rounds": 0, "ops": 0, "abandoned": 0, "conns": 0, "why": ""}
    cas = r.random() < .5
    a = ["--cas", "yes"] if cas else []
    if r.random() < .4: a += ["--queuesize", r.choice(["1", "3", "64"])]
    with Server(a, virtual=True, threads=[1, 1, 2, 4][n % 4], shards=r.choice([1, 16, 256])) as srv:
        adm = Resp(srv.connect())
        class S: 
            def conn(self, p): return adm
        while time.time() - t0 < seconds or not o["rounds"]:
            adm.cmd("FLUSHALL")
            srv.ctl.set(jitter=r.choice([0, 0, 30]))
            st = stats_pre(srv, S())
            nc = r.choice([2, 4, 8])
            ss, res, errs = [], [], []
            for i in range(nc):
                s = Session(srv, rng("cs", n, o["rounds"], i), "", cas=cas, split=.1)
                s.final = lambda: True
                ss.append(s)
            def work(s, i):
                try:
                    g = OwnGen(s.r, b"%d:" % i, nkeys=8, cas=cas, whole=False, maxlen=3000)
                    res.append(run_history(s, g, s.r.choice([5, 20, 40]), 0))
                    if s.r.random() < .5: s.close()
                except BaseException as e: errs.append(e)
            ths = [threading.Thread(target=work, args=(s, i), daemon=True) for i, s in enumerate(ss)]
            for t in ths: t.start()
            for t in ths: t.join(120)
            for e in errs: raise e
            srv.check()
            srv.ctl.set(jitter=0)
            o["rounds"] += 1
            o["ops"] += sum(s.nops for s in ss); o["conns"] += nc
            if not all(res) or len(res) < nc:
                o["abandoned"] += 1; o["why"] = next((s.abandoned for s in ss if s.abandoned), "")
            else:
                want = {k: sum(s.model.stats.get(k, 0) for s in ss) for k in COUNTED}
                slack = {k: sum(s.model.slack.get(k, 0) for s in ss) for k in COUNTED}
                good = lambda x, k: want[k] <= x[k] - st[k] <= want[k] + slack[k]
                got = settle(adm, lambda x: all(good(x, k) for k in COUNTED))
                for k in COUNTED:
                    if not good(got, k):
                        raise Violation(f"stats:{k}", f"{nc} clients at once: statistic {k} rose by {got[k] - st[k]}, they caused {want[k]}", {"argv": srv.argv, "want": want})
                d, lo, hi = got["total_items"] - st["total_items"], sum(s.model.total[0] for s in ss), sum(s.model.total[1] for s in ss)
                if not lo <= d <= hi:
                    raise Violation("stats:total_items", f"{nc} clients at once: total_items rose by {d}, they created {lo}..{hi} entries", {"argv": srv.argv})
                live, most = sum(len(s.model.live_items()) for s in ss), sum(len(s.model.d) for s in ss)
                if not live <= got["curr_items"] <= most:
                    raise Violation("stats:curr_items", f"{nc} clients at once: curr_items {got['curr_items']}, expected {live}..{most}", {"argv": srv.argv})
            for s in ss: s.close()
    return o
