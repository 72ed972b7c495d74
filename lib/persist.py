"""Saving, loading and restarting (C19, C20, C21, C22)."""
import shutil, struct, threading, zlib
from session import *
from kv import *
from server import *

HUGE = 10 ** 18          # expirations this far away may have been clamped

def rconf(r, cas=None):
    """A random server configuration: (arguments, keyword arguments)."""
    a = []
    if r.random() < .5 if cas is None else cas: a += ["--cas", "yes"]
    if r.random() < .4: a += ["--sixpack", "no"]
    if r.random() < .4: a += ["--loadfactor", r.choice(["55", "75", "95"])]
    if r.random() < .3: a += ["--autosweep", "no"]
    if r.random() < .3: a += ["--evict", "no"]
    if r.random() < .3: a += ["--seed", str(r.randrange(2 ** 62))]
    return a, dict(shards=r.choice([1, 1, 2, 3, 7, 9, 11, 16, 23, 64, 101, 128, 1000, 1021]), threads=r.choice([1, 2, 4]))

def shift(d, b0, w0, b1, w1):
    """What the entries d (boot clock b0, wall clock w0) are on a host whose clocks read b1, w1."""
    out = {}
    for k, e in d.items():
        if e.exp:
            left = min(w0 + (e.exp - b0), I64MAX) - w1      # instants after 2262 cannot be written down
            if left <= 0: continue
            e = e._replace(exp=min(b1 + left, I64MAX))
        out[k] = e._replace(cas=None)
    return out

def files(d, path):
    """Names in d other than those the harness made."""
    return sorted(f for f in os.listdir(d) if not f.startswith(("log", "ctl")) and not f.endswith(".sock"))

def bad(key, msg, **kw):
    raise Violation(key, msg, kw)

def check_all(s, op="the load"):
    """Every entry of the model with its remaining time, and nothing else."""
    m = s.model
    s.enforce = "EBFP"
    items = sorted(m.live_items())
    small = [k for k in items if m.d[k].exp - m.env.now < HUGE]
    if not s.batch_all([Op("gets", k) for k in items] + [Op("pttl", k) for k in small] + [Op("keys", val=b"*"), Op("dbsize")]):
        raise Abandon(s.abandoned)
    s.enforce = ""
    return len(items)

class Abandon(Exception):
    """The server and the model disagree about something this property does not cover."""

class PSession(Session):
    def batch_all(self, ops):
        for i in range(0, len(ops), 40):
            if not self.batch("resp", ops[i:i + 40]): return False
        return True

def bulk(s, r, n):
    """Many plain keys, so that a shard holds more than a handful of entries."""
    c = s.conn("resp")
    for a in range(0, n, 200):
        ops = []
        for i in range(a, min(n, a + 200)):
            p = {}
            if r.random() < .2: p["ttl"] = (r.choice([("ex", r.randrange(1, 50)), ("px", r.randrange(1, 60000)), ("px", int(2 ** r.uniform(0, 39))), ("pxat", s.model.env.real // MS + r.randrange(1, 90000))]))
            if r.random() < .2: p["flags"] = r.randrange(2 ** 32)
            ops.append(Op("set", b"b:%d" % r.randrange(2 * n), r.randbytes(r.choice([0, 1, 5, 20, 100, 300])), p))
        if not s.batch("resp", ops): raise Abandon(s.abandoned)

def rt_job(n, seconds):
    """Round trips through snapshots between differently configured servers."""
    r = rng("rt", n)
    t0 = time.time()
    o = {"trips": 0, "abandoned": [], "entries": 0, "expired": 0, "merged": 0, "kinds": set(), "ops": 0, "bytes": 0, "slow_saves": 0, "giants": 0}
    while time.time() - t0 < seconds or not o["trips"]:
        try: rt_chain(r, o)
        except Abandon as e:
            o["abandoned"].append(str(e))
            if len(o["abandoned"]) > 50: break
    return o

def rt_chain(r, o):
        d = scratch("pgp")
        path = os.path.join(d, "snap")
        m, clocks, jumped = {}, (BOOT0, REAL0), False
        for gen in range(r.choice([2, 2, 3, 4])):
            a, kw = rconf(r)
            persist = r.random() < .6
            fastload = r.random() < .5
            merge = gen > 0 and not persist and r.random() < .4
            if gen:
                # the next host: another boot clock, a later (now and then earlier) wall clock
                b1 = r.choice([clocks[0], BOOT0 + r.randrange(10 ** 15), 10 ** 9 + r.randrange(10 ** 9)])
                exps = [clocks[1] + e.exp - clocks[0] for e in m.values() if e.exp and e.exp - clocks[0] < 10 ** 13]
                w1 = clocks[1] + r.choice([0, 1, SEC, 3 * SEC + 7, -SEC, r.randrange(10 ** 11)])
                if exps and r.random() < .5: w1 = r.choice(exps) + r.choice([-1, 0, 1])
                if jumped: w1 = max(w1, clocks[1])        # what expired while it was being saved may be in the file
                o["expired"] += sum(1 for x in exps if x <= w1)
                m = shift(m, *clocks, b1, w1)
                clocks = (b1, w1)
            if persist: a += ["--persist", path]
            with Server(a, virtual=clocks, dir=d, **kw) as srv:
                s = PSession(srv, r, "", cas="--cas" in a)
                if merge:
                    run_history(s, Gen(r, nkeys=6, cas=False, big=False), 4, 0)
                    if s.abandoned: raise Abandon(s.abandoned)
                if gen and not persist:
                    adm = Resp(srv.connect())
                    cmd = [b"LOAD", b"FROM", path.encode()] + ([b"FAST"] if fastload else [])
                    if r.random() < .3: cmd = [b"LOAD", b"FAST", b"FROM", path.encode()]
                    v = adm.cmd(*cmd)
                    if v != ("+", b"OK"): bad("load:reply", f"LOAD of a good snapshot was answered {v!r}", argv=srv.argv)
                    adm.close()
                if gen:
                    for k in m:
                        if m[k].exp: s.model.expiring.add(k)
                    if merge: o["merged"] += 1
                    s.model.d.update(m)
                    o["entries"] += check_all(s)
                # life goes on
                if r.random() < .5:
                    bulk(s, r, r.choice([30, 300, 2000]))
                if r.random() < .12:
                    # keys and values at the sizes at which their encoded length grows, and of several blocks
                    for _ in range(3):
                        if not s.batch("resp", [Op("set", r.randbytes(r.choice([1, 127, 128, 129, 16383, 16384, 100000])), r.choice([r.randbytes, lambda x: b"z" * x])(r.choice([127, 128, 16383, 16384, 1048575, 1048576, 1048577, 2097151, 2097152, 5000000])))]): raise Abandon(s.abandoned)
                    o["giants"] += 3
                if not run_history(s, Gen(r, nkeys=r.choice([3, 10, 40]), cas="--cas" in a, binary=r.random() < .8), r.choice([2, 8, 20])):
                    raise Abandon(s.abandoned)
                adm = Resp(srv.connect())
                if r.random() < .1:
                    adm.cmd(b"FLUSHALL"); s.model.d.clear()
                if r.random() < .3:
                    adm.cmd(b"SWEEP")
                fast = r.random() < .5
                cmd = [b"SAVE"] + ([] if persist and r.random() < .6 else [b"TO", path.encode()]) + ([b"FAST"] if fast else [])
                before = set(files(d, path))
                jumped = False
                if not fast and r.random() < .4:
                    # time passes in the middle of the save
                    J = r.choice([MS, 50 * MS, SEC, 10 * SEC, r.randrange(100 * SEC)])
                    srv.ctl.set(wjumpns=J, wjumpat=r.randrange(1, min(kw["shards"], 40) + 1))
                v = adm.cmd(*cmd)
                srv.ctl.set(wjumpat=0)
                if srv.ctl.wjumps:
                    jumped = True
                    s.model.advance(J)
                    o["slow_saves"] += 1
                if v != ("+", b"OK"): bad("save:reply", f"{cmd!r} was answered {v!r}", argv=srv.argv)
                new = set(files(d, path)) - before - {"snap"}
                if new: bad("save:left", f"a successful save left {sorted(new)}", argv=srv.argv)
                o["bytes"] += os.path.getsize(path)
                m = s.model.live_items()
                # saving changed nothing here
                if r.random() < .5: check_all(s)
                clocks = (srv.ctl.boot, srv.ctl.real)
                adm.close()
                o["ops"] += s.nops
                o["kinds"].add(("trip", gen > 0, persist, fast, fastload, merge, len(m).bit_length(), kw["shards"], "--sixpack" in a))
                s.close()
                if s.abandoned: raise Abandon(s.abandoned)
            o["trips"] += 1
        drop_scratch(d)

def overtaken(srv, c, r, o, path, L):
    """Saves that start one after another while the content moves on: whichever ends last, nothing acknowledged before an acknowledged save is missing."""
    n = r.choice([10, 100])
    srv.ctl.set(writedelay=r.choice([2000, 10000, 30000]), jitter=r.choice([0, 50]))
    pend, floor = [], 0
    for ver in range(1, r.choice([2, 3, 4]) + 1):
        c.send(b"".join(enc_resp([b"SET", b"v%d" % i, b"%d" % ver]) for i in range(n)))
        for _ in range(n): c.read(resp)
        x = Resp(srv.connect())
        x.cmd(b"PING")
        x.send(enc_resp([b"SAVE", b"TO", path.encode()] + ([b"FAST"] if r.random() < .5 else [])))
        pend.append((ver, x))
        time.sleep(r.choice([0, .005, .02, .05]) * r.random())
        if r.random() < .5: srv.ctl.set(writedelay=0)
    o["overtakes"] += 1
    r.shuffle(pend)
    for i, (ver, x) in enumerate(pend):
        v = x.read(resp); x.close()
        if v != ("+", b"OK"): bad("together:failed", f"one of several saves was answered {v!r} without any fault", argv=srv.argv)
        floor = max(floor, ver)
        if i < len(pend) - 1 and r.random() < .6: continue
        ok, got = L.read(path)
        o["loads"] += 1
        if not ok: bad("together:corrupt", "next to other saves an acknowledged snapshot does not load", argv=srv.argv)
        old = [(k, got.get(b"v%d" % k)) for k in range(n) if int((got.get(b"v%d" % k) or (0, b"0"))[1]) < floor]
        if old: bad("together:overtaken", f"the snapshot has {old[:3]} although version {floor} was stored before a save that succeeded (a slower, earlier save replaced it)", argv=srv.argv)
    srv.ctl.set(writedelay=0)
    o["kinds"].add(("overtaken", len(pend), floor))

def together_job(n, seconds):
    """Several saves to one path at once, some met by a fault or a kill: the path always holds a complete snapshot."""
    t0 = time.time()
    o = {"together": 0, "ok": 0, "failed": 0, "kinds": set(), "loads": 0, "kills": 0, "terms": 0, "overtakes": 0}
    rd = 0
    while time.time() - t0 < seconds or not rd:
        rd += 1
        r = rng("together", n, rd)
        d = scratch("pgf")
        path = os.path.join(d, "snap")
        L = Loader(d)
        srv = None
        try:
            for _ in range(3):
                conts = [content(r, b"old", r.choice([5, 60])), content(r, b"new", r.choice([20, 200]))]
                reads = [asread(x) for x in conts]
                srv = Server(["--persist", path] if os.path.exists(path) or r.random() < .5 else [], virtual=True, dir=d, threads=r.choice([1, 2, 4]), shards=r.choice([1, 3, 16, 64]))
                c = Resp(srv.connect())
                def load():
                    ok, got = L.read(path, fast=r.random() < .5)
                    o["loads"] += 1
                    return got if ok else None
                c.cmd(b"FLUSHALL")
                fill(c, conts[0])
                if c.cmd(b"SAVE", b"TO", path.encode()) != ("+", b"OK"): bad("fault:base", "a SAVE without faults failed", argv=srv.argv)
                c.cmd(b"FLUSHALL")
                fill(c, conts[1])
                for _ in range(2): overtaken(srv, c, r, o, path, L)
                if c.cmd(b"SAVE", b"TO", path.encode()) != ("+", b"OK"): bad("fault:base", "a SAVE without faults failed", argv=srv.argv)
                conts[0], reads[0] = dict(conts[0]), L.read(path)[1]
                c.cmd(b"FLUSHALL")
                fill(c, conts[1])
                for _ in range(6):
                    srv.ctl.set(writedelay=r.choice([0, 300, 3000, 15000]), jitter=r.choice([0, 50]), preempt=r.choice([0, 0, 100]))
                    cs = [Resp(srv.connect()) for _ in range(r.choice([2, 3, 5]))]
                    for x in cs: x.cmd(b"PING")
                    act, ename = r.choice([(0, "none"), (0, "none"), (A_ERRNO, "errno"), (A_SHORT, "short"), (A_STICKY, "sticky"), (A_KILL, "kill"), (A_KILLPART, "killpart"), (-1, "term"), (-2, "sigkill")])
                    srv.ctl.clear_faults()
                    if act > 0: srv.ctl.set(armed=1, findex=r.randrange(30), faction=act, ferrno=28)
                    for x in cs: x.send(enc_resp([b"SAVE", b"TO", path.encode()] + ([b"FAST"] if r.random() < .5 else [])))
                    o["together"] += 1
                    if act < 0:
                        time.sleep(r.choice([0, .002, .03]) * r.random())
                        srv.signal(signal.SIGTERM if act == -1 else signal.SIGKILL)
                        if srv.wait(60) is None: bad("together:noexit", "the server did not end within 60 s of SIGTERM during saves", argv=srv.argv)
                    oks = 0
                    for x in cs:
                        try: v = x.read(resp)
                        except (Closed, Timeout, OSError):
                            if act not in (A_KILL, A_KILLPART) and act >= 0: srv.check(); bad("together:noreply", f"one of several saves was not answered (fault: {ename})", argv=srv.argv)
                            continue
                        if v == ("+", b"OK"): oks += 1; o["ok"] += 1
                        elif v[0] == "-": o["failed"] += 1
                        else: bad("together:reply", f"one of several saves was answered {v!r}", argv=srv.argv)
                        if act == 0 and v[0] != "+": bad("together:failed", f"one of several saves was answered {v!r} without any fault", argv=srv.argv)
                        if v == ("+", b"OK") and srv.alive() and len(cs) == 2 and r.random() < .5 and load() != reads[1]:
                            bad("together:early", f"a save that was answered OK next to another one has not left the complete content (fault: {ename})", argv=srv.argv)
                    for x in cs: x.close()
                    srv.ctl.clear_faults(); srv.ctl.set(writedelay=0)
                    got = load()
                    if got is None: bad("together:corrupt", f"after several saves at once ({ename}) the snapshot no longer loads", argv=srv.argv)
                    which = reads.index(got) if got in reads else -1
                    if which < 0 or oks and which != 1:
                        bad("together:mixed", f"after several saves at once ({ename}, {oks} of {len(cs)} succeeded) the path holds {['the previous', 'the complete', 'neither the previous nor the complete'][which]} content", argv=srv.argv)
                    o["kinds"].add(("together", ename, len(cs), oks > 0, which))
                    if act < 0 or not srv.alive():
                        srv.check_log()
                        o["kills" if act != -1 else "terms"] += 1
                        break
                    srv.check()
                srv.expected_exit = True; srv.cleanup(); srv = None
                for f in files(d, path):
                    if f != "snap": os.unlink(os.path.join(d, f))
            L.srv.check()
        finally:
            if srv: srv.cleanup()
            L.srv.cleanup()
            drop_scratch(d)
    return o

def conc_job(n, seconds):
    """Snapshots taken while clients write: every key has a value it had during the save."""
    r = rng("conc", n)
    t0 = time.time()
    o = {"saves": 0, "keys": 0, "moved": 0, "kinds": set(), "absent": 0, "writes": 0}
    a, kw = rconf(r)
    d = scratch("pgc")
    L = Server([], virtual=(BOOT0 + 5, REAL0), dir=d)
    la = Resp(L.connect())
    try:
        with Server(a, virtual=True, dir=d, **kw) as srv:
            adm = Resp(srv.connect())
            nw = 4
            hist = [[] for _ in range(nw)]     # per writer: (key, seq or None, t_send, t_ack)
            stop = threading.Event()
            errs = []
            still = [b"still%d" % i for i in range(200)]
            for k in still: adm.cmd(b"SET", k, k * 3, b"FLAGS", b"9")
            def writer(i):
                rr = rng("w", n, i)
                c = Resp(srv.connect())
                seq = 0
                try:
                    while not stop.is_set():
                        ops = []
                        for _ in range(rr.choice([1, 3, 10])):
                            seq += 1
                            k = b"w%d:%d" % (i, rr.randrange(60))
                            x = rr.random()
                            if x < .15: ops.append((k, None, [b"DEL", k]))
                            elif x < .6: ops.append((k, seq, [b"SET", k, b"%d." % seq * rr.choice([1, 5, 40]), b"FLAGS", b"%d" % seq]))
                            else: ops.append((k, seq, [b"SET", k, b"%d." % seq * 3, b"EX", b"%d" % (1000 + seq), b"FLAGS", b"%d" % seq]))
                        t = time.monotonic()
                        c.send(b"".join(enc_resp(x) for _, _, x in ops))
                        for _ in ops: c.read(resp)
                        t2 = time.monotonic()
                        for k, q, x in ops: hist[i].append((k, q, t, t2, x))
                        o["writes"] += len(ops)
                        if rr.random() < .2: time.sleep(.002 * rr.random())
                except (Closed, Timeout, Bad) as e:
                    errs.append(repr(e))
            ths = [threading.Thread(target=writer, args=(i,), daemon=True) for i in range(nw)]
            for t in ths: t.start()
            j = 0
            marks = []
            while time.time() - t0 < seconds and not errs:
                j += 1
                path = os.path.join(d, "c%d" % j)
                srv.ctl.set(writedelay=r.choice([0, 0, 300, 3000]), jitter=r.choice([0, 50]))
                time.sleep(.01 * r.random())
                fast = r.random() < .5
                ts = time.monotonic()
                v = adm.cmd(b"SAVE", b"TO", path.encode(), *([b"FAST"] if fast else []))
                te = time.monotonic()
                if v != ("+", b"OK"): bad("save:reply", f"SAVE next to writers was answered {v!r}", argv=srv.argv)
                marks.append((path, ts, te, fast))
                if len(marks) < 6: continue
                # look at them
                h = [list(x) for x in hist]
                time.sleep(.05)
                h = [list(x) for x in hist]
                for path, ts, te, fast in marks:
                    la.cmd(b"FLUSHALL")
                    v = la.cmd(b"LOAD", b"FROM", path.encode(), *([b"FAST"] if r.random() < .5 else []))
                    if v != ("+", b"OK"): bad("load:reply", f"the snapshot saved next to writers was answered {v!r}", argv=srv.argv)
                    ks = sorted(x[1] for x in la.cmd(b"KEYS", b"*")[1])
                    vals = la.cmd(b"MGETS", *ks)[1] if ks else []
                    got = {}
                    for k, e in zip(ks, vals): got[k] = (e[1][2][1], int(e[1][0][1]))
                    for k in still:
                        if got.pop(k, None) != (k * 3, 9): bad("conc:still", f"{k!r}, written before the save and not since, is not in the snapshot as it was", argv=srv.argv)
                    per = {}
                    for x in h:
                        for e in x: per.setdefault(e[0], []).append(e)
                    for k in set(per) | set(got):
                        es = per.get(k)
                        if not es: bad("conc:invented", f"the snapshot holds {k!r}, which nobody wrote before the save ended", argv=srv.argv)
                        lo = -1
                        for ix, e in enumerate(es):
                            if e[3] < ts: lo = ix
                        ok = {}
                        cand = range(max(lo, 0), len(es)) if lo >= 0 else range(len(es))
                        allowed = set() if lo >= 0 else {None}
                        for ix in cand:
                            if es[ix][2] <= te: allowed.add(es[ix][1])
                        g = got.get(k)
                        if g is None:
                            o["absent"] += 1
                            if None not in allowed: bad("conc:lost", f"{k!r} is not in the snapshot although it existed throughout the save (versions {sorted(allowed)[:10]})", argv=srv.argv, fast=fast)
                            continue
                        q = g[1]
                        if q not in allowed: bad("conc:stale", f"the snapshot has version {q} of {k!r}; during the save it had {sorted(x for x in allowed if x is not None)[:10]}", argv=srv.argv, fast=fast)
                        ent = next(e for e in es if e[1] == q)
                        if ent[4][2] != g[0]: bad("conc:mixed", f"{k!r} version {q} has value {g[0][:60]!r} instead of {ent[4][2][:60]!r}", argv=srv.argv)
                        ttl = la.cmd(b"PTTL", k)[1]
                        want = (1000 + q) * 1000 if b"EX" in ent[4] else -1
                        if ttl != want: bad("conc:ttl", f"{k!r} version {q} has {ttl} ms left instead of {want}", argv=srv.argv)
                        o["keys"] += 1
                        if len(allowed) > 1: o["moved"] += 1
                    o["saves"] += 1
                    o["kinds"].add(("conc", fast, kw["shards"], len(got).bit_length()))
                    os.unlink(path)
                marks = []
                # writers restart their logs from the last state of each key
            stop.set()
            for t in ths: t.join(30)
            srv.check()
            if errs: bad("conc:client", "a writer lost its connection: " + errs[0], argv=srv.argv)
            L.check()
    finally:
        L.cleanup()
        drop_scratch(d)
    return o

def big_table_job(n, nkeys=140000):
    """One shard with more entries than the small numbers in the code can count."""
    from srvparts import Bulk
    r = rng("bigtable", n)
    o = {"entries": 0, "trips": 0}
    d = scratch("pgb")
    path = os.path.join(d, "snap")
    try:
        nkeys += r.randrange(nkeys // 8)
        ents = {b"%x/%d" % (i * 2654435761 % 2 ** 32, i): (b"v%d" % i * (1 + i % 3), 1000 + i % 5000 if i % 4 == 0 else 0, i % 7) for i in range(nkeys)}
        with Server(["--maxmemory", "unlimited"], virtual=True, dir=d, threads=1, shards=1) as a:
            c = Bulk(a.connect())
            ks = list(ents)
            for i in range(0, nkeys, 2000):
                p = []
                for k in ks[i:i + 2000]:
                    v, t, f = ents[k]
                    p.append(enc_resp([b"SET", k, v] + ([b"EX", b"%d" % t] if t else []) + ([b"FLAGS", b"%d" % f] if f else [])))
                c.send(b"".join(p))
                for _ in p:
                    if c.read() != b"OK": bad("big:set", "SET failed", argv=a.argv)
            if c.cmd("SAVE", "TO", path) != b"OK": bad("big:save", "SAVE of a large table failed", argv=a.argv)
            for shards, fast in ((r.choice([1, 1, 16]), r.random() < .5),):
                with Server(["--maxmemory", "unlimited"], virtual=(a.ctl.boot, a.ctl.real), dir=d, threads=1, shards=shards) as b:
                    e = Bulk(b.connect())
                    if e.cmd("LOAD", "FROM", path, *(["FAST"] if fast else [])) != b"OK": bad("big:load", "LOAD of a large table failed", argv=b.argv)
                    got = e.cmd("KEYS", "*")
                    if sorted(got) != sorted(ks): bad("big:keys", f"of {nkeys} keys {len(set(got) & set(ks))} are there after save and load, {len(got)} keys in all", argv=b.argv)
                    for i in range(0, nkeys, 5000):
                        part = ks[i:i + 5000]
                        for k, v in zip(part, e.cmd("MGET", *part)):
                            if v != ents[k][0]: bad("big:value", f"the value of {k!r} changed by save and load", argv=b.argv)
                    some = r.sample(ks, 20000)
                    e.send(b"".join(enc_resp([b"TTL", k]) for k in some))
                    for k in some:
                        t, w = e.read(), ents[k][1] or -1
                        if t != w: bad("big:ttl", f"the remaining time of {k!r} changed from {w} to {t} s by save and load", argv=b.argv)
                    o["trips"] += 1; o["entries"] += nkeys
    finally:
        drop_scratch(d)
    return o

def big_job(n):
    """A shard of more than a gigabyte, which takes several blocks (thorough tier)."""
    o = {"trips": 0, "entries": 0}
    d = scratch("pgb")
    path = os.path.join(d, "snap")
    try:
        with Server(["--maxmemory", "unlimited"], san="plain", dir=d, threads=1, shards=1) as a:
            c = Resp(a.connect(timeout=600), 600)
            for i in range(13): c.cmd(b"DEBUG", b"POPULATE", b"100", b"p%d" % i, b"1000000")
            names = sorted(x[1] for x in c.cmd(b"KEYS", b"*")[1])
            for k in names[::3]: c.cmd(b"EXPIRE", k, b"100000")
            if c.cmd(b"SAVE", b"TO", path.encode()) != ("+", b"OK"): bad("big:save", "SAVE of a large shard failed", argv=a.argv)
            with Server(["--maxmemory", "unlimited"], san="plain", dir=d, threads=1, shards=16) as b:
                e = Resp(b.connect(timeout=600), 600)
                if e.cmd(b"LOAD", b"FROM", path.encode(), b"FAST") != ("+", b"OK"): bad("big:load", "LOAD of a large shard failed", argv=b.argv)
                if sorted(x[1] for x in e.cmd(b"KEYS", b"*")[1]) != names: bad("big:keys", "keys of a large shard changed by save and load", argv=b.argv)
                for k in names:
                    if c.cmd(b"GET", k) != e.cmd(b"GET", k): bad("big:value", f"the value of {k!r} changed by save and load", argv=b.argv)
                    t, u = c.cmd(b"TTL", k)[1], e.cmd(b"TTL", k)[1]
                    if (t < 0) != (u < 0) or abs(t - u) > 3: bad("big:ttl", f"the remaining time of {k!r} changed from {t} to {u} s by save and load", argv=b.argv)
                o["entries"] += len(names); o["trips"] += 1
    finally:
        drop_scratch(d)
    return o

# ---------------------------------------------------------------- faults during a save (C20)
class Loader:
    """A persistent server that says what a snapshot file holds."""
    def __init__(self, d, clocks=True):
        self.d = d
        self.srv = Server([], virtual=clocks, dir=d, threads=1, shards=4)
        self.c = Resp(self.srv.connect())
    def read(self, path, fast=False):
        """(loaded without error, {key: (flags, value, pttl)})"""
        p = enc_resp([b"LOAD", b"FROM", path.encode()] + ([b"FAST"] if fast else [])) + enc_resp([b"KEYS", b"*"])
        self.c.send(enc_resp([b"FLUSHALL"]) + p)
        try:
            self.c.read(resp)
            v = self.c.read(resp)
            ks = sorted(x[1] for x in self.c.read(resp)[1])
            out = {}
            if ks:
                self.c.send(enc_resp([b"MGETS"] + ks) + b"".join(enc_resp([b"PTTL", k]) for k in ks))
                vals = self.c.read(resp)[1]
                for k, e in zip(ks, vals): out[k] = (int(e[1][0][1]), e[1][2][1], self.c.read(resp)[1])
        except (Closed, Timeout, Bad) as e:
            time.sleep(.1)
            self.srv.check()
            raise HarnessError("loader: " + repr(e))
        return v == ("+", b"OK"), out
    def close(self):
        try: self.srv.check()
        finally: self.srv.cleanup()

def content(r, tag, n):
    """{key: (flags, value, ttl seconds or None)}"""
    return {b"%s%d" % (r.choice([b"k", b"k", tag]), i): (r.choice([0, 0, 7, 2 ** 32 - 1]), tag + b"%d" % i * r.choice([1, 4, 30, 200]), r.choice([None, None, 100 + i])) for i in range(n)}

def fill(c, cont):
    c.send(enc_resp([b"FLUSHALL"]) + b"".join(enc_resp([b"SET", k, v, b"FLAGS", b"%d" % f] + ([b"EX", b"%d" % t] if t else [])) for k, (f, v, t) in cont.items()))
    for _ in range(len(cont) + 1):
        if c.read(resp)[0] == "-": raise HarnessError("fill")
def asread(cont):
    return {k: (f, v, t * 1000 if t else -1) for k, (f, v, t) in cont.items()}

ERRNOS = [("ENOSPC", 28), ("EIO", 5), ("EINTR", 4), ("EDQUOT", 122), ("EAGAIN", 11)]
KNAME = {K_OPEN: "open", K_WRITE: "write", K_FSYNC: "fsync", K_RENAME: "rename", K_UNLINK: "unlink", K_CLOSE: "close", K_READ: "read"}

def fault_job(n, seconds):
    """Enumerates every file call of a save x fault, in one configuration per worker and round."""
    t0 = time.time()
    o = {"faults": 0, "kills": 0, "hits": 0, "kinds": set(), "points": 0, "saves_ok": 0, "saves_failed": 0, "sigterm": 0, "rounds": 0, "complete_rounds": 0, "loads": 0, "samples": []}
    rd = 0
    while True:
        rd += 1
        r = rng("fault", n, rd)
        if not fault_round(r, o, t0 + seconds, fast=bool((n + rd) & 1), prev=bool((n >> 1) + rd // 2 & 1), shards=[3, 1, 8, 2][(n + rd) % 4]): break
        o["rounds"] += 1
        if time.time() - t0 > seconds: break
    return o

def fault_round(r, o, end, fast, prev, shards):
    d = scratch("pgf")
    path = os.path.join(d, "snap")
    keep = os.path.join(d, "keep")
    L = Loader(d)
    srv = None
    args = ["--persist", path] if r.random() < .7 else []
    hseed = str(r.randrange(1, 2 ** 60))        # the same distribution over shards after every restart
    threads = r.choice([1, 2])
    old, new = content(r, b"old", r.choice([5, 20, 60])), content(r, b"new", r.choice([5, 20, 60]))
    wold, wnew = asread(old), asread(new)
    savecmd = [b"SAVE"] + ([] if args and r.random() < .5 else [b"TO", path.encode()]) + ([b"FAST"] if fast else [])
    def start():
        # starts from the file at path when there is one and it is configured
        s = Server(args + ["--seed", hseed], virtual=True, dir=d, threads=threads, shards=shards)
        return s, Resp(s.connect())
    def put(exists):
        for f in files(d, path):
            if f != "keep": os.unlink(os.path.join(d, f))
        if exists: shutil.copy(keep, path); os.chmod(path, 0o444)
    def verdict(what, reply, must=None):
        """Which complete snapshot does the path hold?"""
        if not os.path.exists(path):
            got = None
        else:
            ok, c = L.read(path, fast=r.random() < .5)
            o["loads"] += 1
            if not ok: bad(f"fault:corrupt:{what[0]}:{what[1]}", f"after {what} the snapshot no longer loads (save replied {reply!r})", what=what, args=args)
            got = "new" if c == wnew else "old" if c == wold else "mixed"
        allowed = {"new", "old" if prev else None}
        if reply == ("+", b"OK"): allowed = {"new"}
        if must: allowed = must
        if got not in allowed:
            bad(f"fault:{got or 'absent'}:{what[0]}:{what[1]}", f"after {what} the snapshot path holds {'nothing' if got is None else 'the ' + got + ' content'}; allowed: {allowed} (save replied {reply!r}, previous snapshot: {prev})", what=what, args=args, cmd=[x.decode() for x in savecmd])
        return got
    try:
        # the previous snapshot
        srv, c = start()
        fill(c, old)
        if c.cmd(b"SAVE", b"TO", path.encode()) != ("+", b"OK"): bad("fault:base", "a SAVE without faults failed", args=args)
        shutil.copy(path, keep)
        fill(c, new)
        put(prev)
        srv.ctl.clear_faults(); srv.ctl.set(armed=1)
        if c.cmd(*savecmd) != ("+", b"OK"): bad("fault:base", "a SAVE without faults failed", args=args)
        log = srv.ctl.log()
        srv.ctl.clear_faults()
        verdict(("none", "", 0), ("+", b"OK"))
        calls = [k for k, _ in log]
        o["points"] = max(o["points"], len(calls))
        if not calls: raise HarnessError("no file calls seen during a save")
        cases = []
        for i, k in enumerate(calls):
            acts = [(A_ERRNO, e) for e in ERRNOS[:3] + [r.choice(ERRNOS[3:])]] + [(A_STICKY, ERRNOS[0]), (A_KILL, ("", 0))]
            if k == K_WRITE: acts += [(A_SHORT, ("", 0)), (A_KILLPART, ("", 0))]
            cases += [(i, k, a, e) for a, e in acts]
        cases.append((len(calls), 0, A_KILL, ("", 0)))
        # kills need a restart, so they come in their own order
        r.shuffle(cases)
        nfd = srv.nfds()
        done = 0
        for i, k, act, (ename, eno) in cases:
            if time.time() > end: return False
            an = {A_ERRNO: "errno", A_STICKY: "sticky", A_KILL: "kill", A_SHORT: "short", A_KILLPART: "killpart"}[act]
            what = (KNAME.get(k, "end"), an + ename, i)
            put(prev)
            if srv is None:
                put(False)
                srv, c = start(); fill(c, new); nfd = srv.nfds()
                put(prev)
            srv.ctl.clear_faults()
            if i < len(calls): srv.ctl.set(armed=1, fkind=0, findex=i, faction=act, ferrno=eno)
            o["faults"] += 1
            o["kinds"].add((what[0], what[1], fast, prev, i < 3))
            if act in (A_KILL, A_KILLPART):
                c.send(enc_resp(savecmd))
                if i == len(calls):
                    c.read(resp); srv.kill()
                    reply = ("+", b"OK")
                else:
                    try: reply = c.read(resp)
                    except (Closed, Timeout): reply = None
                    if reply is not None and srv.ctl.fhit == 0 and k != K_UNLINK:
                        srv.ctl.clear_faults(); continue       # this save made fewer calls
                    srv.expected_exit = True
                    if srv.wait(20) != -9 and srv.ctl.fhit: raise HarnessError("not killed")
                srv.check_log(); srv.cleanup(); srv = None
                o["kills"] += 1
                got = verdict(what, reply)
                if args and r.random() < .25:
                    # the next server starts from what is there and tidies up
                    srv, c = start()
                    ks = sorted(x[1] for x in c.cmd(b"KEYS", b"*")[1])
                    want = sorted({"new": wnew, "old": wold, None: {}}[got])
                    if ks != want: bad(f"fault:restart:{what[0]}:{what[1]}", f"after {what} a restarted server has {len(ks)} keys instead of {len(want)}", what=what)
                    left = [f for f in files(d, path) if f not in ("snap", "keep")]
                    if left: bad(f"fault:work:{what[0]}", f"after {what} a restarted server left {left} in place", what=what)
                    fill(c, new); nfd = srv.nfds()
                continue
            try: reply = c.cmd(*savecmd)
            except (Closed, Timeout) as e:
                srv.check()
                bad(f"fault:noreply:{what[0]}:{what[1]}", f"a save that met {what} was never answered: {e!r}", what=what, args=args)
            hit = srv.ctl.fhit
            srv.ctl.clear_faults()
            o["hits"] += hit
            if reply == ("+", b"OK"): o["saves_ok"] += 1
            elif reply[0] == "-": o["saves_failed"] += 1
            else: bad("fault:reply", f"a save that met {what} was answered {reply!r}", what=what)
            verdict(what, reply)
            # the server goes on: it serves, has its content, no file or descriptor is left, and a later save works
            if c.cmd(b"DBSIZE") != (":", len(new)): bad("fault:content", f"content changed by a save that met {what}", what=what)
            left = [f for f in files(d, path) if f not in ("snap", "keep")]
            if left and k != K_UNLINK and act != A_STICKY: bad(f"fault:left:{what[0]}:{what[1]}", f"a save that met {what} left {left}", what=what)
            n2 = srv.nfds()
            if n2 > nfd: bad(f"fault:fd:{what[0]}:{what[1]}", f"{n2 - nfd} descriptors more after a save that met {what}", what=what)
            if r.random() < .3:
                put(prev)
                v = c.cmd(*savecmd)
                if v != ("+", b"OK"): bad(f"fault:later:{what[0]}:{what[1]}", f"after a save that met {what} the next one was answered {v!r}", what=what)
                verdict(what, v)
            done += 1
        # other ways to fail
        if srv is None: put(False); srv, c = start(); fill(c, new)
        put(prev)
        for p in (os.path.join(d, "nodir", "x"), d, os.path.join(path, "x"), "/proc/nope/x"):
            v = c.cmd(b"SAVE", b"TO", p.encode())
            if v[0] != "-": bad("fault:dir", f"SAVE TO {p} was answered {v!r}", args=args)
        srv.ctl.set(escapes=0)
        verdict(("path", "", 0), None, {"old" if prev else None})
        srv.ctl.set(threadskip=r.choice([0, 1, 1, 2]), threadfail=r.choice([1, 2, -1]))
        v = c.cmd(*savecmd)
        srv.ctl.set(threadfail=0, threadskip=0)
        verdict(("thread", "", 0), v)
        o["complete_rounds"] += 1
        if len(o["samples"]) < 2: o["samples"].append({"calls": [KNAME[k] for k in calls], "fast": fast, "previous": prev, "cases": len(cases)})
        # the save at termination
        if args:
            for act, i in [(A_ERRNO, r.randrange(len(calls))), (A_STICKY, r.randrange(len(calls))), (A_KILL, r.randrange(len(calls))), (0, 0)]:
                if time.time() > end: return False
                put(prev)
                if srv is None or not srv.alive():
                    put(False); srv, c = start(); fill(c, new); put(prev)
                srv.ctl.clear_faults(); srv.ctl.set(armed=1, findex=i, faction=act, ferrno=28)
                srv.signal(signal.SIGTERM)
                rc = srv.wait(30)
                if rc is None: bad("fault:term", f"the server did not end within 30 s of SIGTERM with a fault at call {i}", args=args)
                srv.check_log()
                what = ("term", {A_ERRNO: "errno", A_STICKY: "sticky", A_KILL: "kill", 0: "none"}[act], i)
                got = verdict(what, ("+", b"OK") if rc == 0 else None)
                if act == 0 and rc != 0: bad("fault:termrc", f"exit status {rc} after SIGTERM", args=args)
                srv.cleanup(); srv = None
                o["sigterm"] += 1
        if srv: srv.check()
        L.srv.check()
        return True
    finally:
        if srv: srv.cleanup()
        L.srv.cleanup()
        drop_scratch(d)

# ---------------------------------------------------------------- damaged snapshots (C21)
def blocks(b):
    """Boundaries of the blocks of a snapshot [0, ..., len], or None when it does not look like one."""
    p, out = 0, [0]
    while p < len(b):
        if b[p:p + 4] != b"POGO" or p + 16 > len(b): return None
        p += 16 + struct.unpack("<I", b[p + 12:p + 16])[0]
        if p > len(b): return None
        out.append(p)
    return out

def uv(x):
    o = bytearray()
    while x >= 128:
        o.append(x & 127 | 128); x >>= 7
    o.append(x)
    return bytes(o)

def lz4lit(d):
    """An LZ4 block of literals only."""
    n = len(d)
    if n < 15: return bytes([n << 4]) + d
    o = bytearray([0xf0]); n -= 15
    while n >= 255: o.append(255); n -= 255
    o.append(n)
    return bytes(o) + d

def block(payload, comp=None, dlen=None, crc=None, clen=None):
    c = lz4lit(payload) if comp is None else comp
    return b"POGO" + struct.pack("<III", zlib.crc32(c) if crc is None else crc, len(payload) if dlen is None else dlen & 0xffffffff, len(c) if clen is None else clen) + c

def entry(k, v, ttl=0, flags=0, cas=1, kind=0, klen=None, vlen=None):
    return bytes([kind]) + uv(len(k) if klen is None else klen) + k + uv(len(v) if vlen is None else vlen) + v + uv(ttl) + uv(flags) + uv(cas)

FOREIGN = block(uv(REAL0) + entry(b"foreign", b"xx"))

def crafted(r):
    """(file bytes, entries that a correct file of these blocks would hold or None, must fail)"""
    t = uv(REAL0)
    good = {b"a%d" % i: r.randbytes(r.choice([0, 1, 5, 40])) for i in range(r.randrange(1, 4))}
    body = t + b"".join(entry(k, v) for k, v in good.items())
    big = r.choice([2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1, 2 ** 32, 2 ** 31, 100000, 2 ** 62 + 5, 4096, 1 << 40])
    x = r.randrange(15)
    e = r.choice
    if x == 0: bad_ = entry(b"kk", b"vv", klen=big)
    elif x == 1: bad_ = entry(b"kk", b"vv", vlen=big)
    elif x == 2: bad_ = entry(b"kk", b"vv", ttl=e([2 ** 63, 2 ** 64 - 1]))
    elif x == 3: bad_ = entry(b"kk", b"vv", flags=e([2 ** 32, 2 ** 64 - 1]))
    elif x == 4: bad_ = entry(b"kk", b"vv", kind=e([1, 2, 255]))
    elif x == 5: bad_ = entry(b"kk", b"vv")[:r.randrange(1, 9)]
    elif x == 6: bad_ = b"\0" + b"\xff" * r.randrange(1, 20)
    elif x == 7: bad_ = b"\0\2kk" + b"\x80" * r.randrange(1, 12)
    elif x == 8: bad_ = b"\0\2kk\2vv" + b"\x81" * r.randrange(1, 12)
    elif x == 9: return block(uv(e([2 ** 63, 2 ** 64 - 1])) + body[len(t):]), {}, True
    elif x == 10: return block(b""), {}, True                          # no time stamp at all
    elif x == 11:
        d = r.choice([-1, 1, 7, 1000, 1 << 20, 1 << 31])
        return block(body, dlen=len(body) + d), {}, True
    elif x == 12:                                                     # damaged compressed data under a correct checksum
        c = bytearray(lz4lit(body))
        for _ in range(r.randrange(1, 6)): c[r.randrange(len(c))] = r.randrange(256)
        return block(body, comp=bytes(c), dlen=len(body) + r.choice([0, 0, 0, 5, 5000, 70000])), None, False
    elif x == 13:                                                     # matches that reach before the start or run on
        c = bytearray(r.randbytes(r.randrange(1, 80)))
        if r.random() < .7: c = bytearray([r.choice([0x1f, 0x0f, 0xff, 0x4f, 0xf0])]) + c
        return block(b"x" * r.choice([1, 20, 300, 65536, 1 << 20]), comp=bytes(c)), None, False
    else:                                                             # correct file, odd but legal numbers
        es = {b"ok": (b"v" * 300, r.choice([1, 2 ** 62, 2 ** 63 - 1, 5])), b"": (b"", 0)}
        return block(uv(r.choice([0, 1, REAL0, 2 ** 63 - 1])) + b"".join(entry(k, v, ttl=tt, flags=2 ** 32 - 1, cas=2 ** 64 - 1) for k, (v, tt) in es.items())), None, False
    return block(body + bad_), good, True

def damage_job(n, seconds):
    """Loads damaged copies of snapshots and compares the outcome with the original content."""
    r = rng("damage", n)
    t0 = time.time()
    o = {"loads": 0, "flips": 0, "cuts": 0, "mut": 0, "crafted": 0, "starts": 0, "refused": 0, "accepted_same": 0, "blockwise": 0, "kinds": set(), "full": 0, "snaps": 0, "faults": 0, "known": set(), "samples": []}
    d = scratch("pgd")
    L = Loader(d)
    path = os.path.join(d, "snap"); dam = os.path.join(d, "dam")
    def fail(key, msg, b):
        keep = b if len(b) < 20000 else b[:20000]
        raise Violation(key, msg, {"file": keep.hex()})
    def same(g, w):
        return g[0] == w[0] and g[1] == w[1] and (g[2] == w[2] or w[2] > 10 ** 12)
    def judge_(b, orig, want, cls, limit=None):
        """One damaged file. orig: the undamaged bytes it came from."""
        with open(dam, "wb") as f: f.write(b)
        os.chmod(dam, 0o644)
        try: ok, got = L.read(dam, fast=r.random() < .3)
        except Violation as v:
            raise Violation(v.key, v.msg, dict(v.replay, file=b[:20000].hex(), cls=cls))
        o["loads"] += 1
        o["kinds"].add((cls, ok, len(got).bit_length()))
        if not ok: o["refused"] += 1
        if limit is None:
            # only intact blocks of this or another snapshot?
            bs = blocks(orig); bn = blocks(b)
            whole = bs is not None and bn is not None and b != orig and set(b[p:q] for p, q in zip(bn, bn[1:])) <= set(orig[p:q] for p, q in zip(bs, bs[1:])) | {FOREIGN}
            for k, g in got.items():
                if k not in want or not same(g, want[k]):
                    if whole and ok: break
                    fail(f"damaged:invented:{cls}", f"loading a snapshot damaged by {cls} brought in {k!r} = {g!r:.200}, which the original does not hold (reply {'OK' if ok else 'error'})", b)
            if ok and b != orig:
                if set(got) == set(want) and all(same(got[k], want[k]) for k in want): o["accepted_same"] += 1
                elif whole: fail_known(b, cls, got, want)
                else: fail(f"damaged:accepted:{cls}", f"a snapshot damaged by {cls} loaded with success but holds {len(got)} of {len(want)} entries", b)
            if not ok and b == orig: fail("damaged:refused", "the undamaged snapshot was refused", b)
        else:
            good, must = limit
            if must and ok: fail(f"crafted:accepted", f"a file with an impossible block was loaded with success ({len(got)} entries)", b)
            if good is not None:
                for k, g in got.items():
                    if g[1] != good.get(k): fail("crafted:invented", f"{k!r} = {g!r:.100} came from a block that does not hold it", b)
        return ok, got
    reported = {}
    def fail_known(b, cls, got, want):
        # only whole blocks are missing, repeated or from elsewhere: every block is intact
        o["blockwise"] += 1
        reported.setdefault("blockwise", (b, cls, len(got), len(want)))
    try:
        while time.time() - t0 < seconds:
            # a snapshot
            shards = r.choice([1, 1, 2, 4])
            with Server(["--cas", "yes"] if r.random() < .5 else [], virtual=True, dir=d, threads=1, shards=shards) as srv:
                c = Resp(srv.connect())
                style = r.random()
                cont = content(r, b"s%d." % r.randrange(100), r.choice([1, 2, 3, 6, 12]))
                if style < .3: cont = {k: (f, v[:r.choice([0, 1, 8])], t) for k, (f, v, t) in cont.items()}
                if style > .9: cont.update(content(r, b"L", 40))
                fill(c, cont)
                if c.cmd(b"SAVE", b"TO", path.encode()) != ("+", b"OK"): raise HarnessError("save")
            orig = open(path, "rb").read()
            want = asread(cont)
            o["snaps"] += 1
            ok, got = judge_(orig, orig, want, "nothing")
            if got != want: fail("damaged:base", "an undamaged snapshot does not load completely", orig)
            if len(o["samples"]) < 2: o["samples"].append({"bytes": len(orig), "blocks": len(blocks(orig) or []) - 1, "entries": len(want)})
            done = True
            if len(orig) < 1500:
                for i in range(len(orig)):
                    if time.time() - t0 > seconds: done = False; break
                    judge_(orig[:i], orig, want, "cut"); o["cuts"] += 1
                # bits in random order so that a short run still covers every region
                bits = list(range(len(orig) * 8)); r.shuffle(bits)
                for i in bits:
                    if time.time() - t0 > seconds: done = False; break
                    b = bytearray(orig); b[i >> 3] ^= 1 << (i & 7)
                    judge_(bytes(b), orig, want, "flip"); o["flips"] += 1
                o["full"] += done
            bs = blocks(orig) or [0, len(orig)]
            for _ in range(60):
                if time.time() - t0 > seconds: break
                x = r.random(); b = bytearray(orig)
                if x < .2: b += r.choice([b"\0", b"P", b"POGO", b"POGO" + b"\0" * 12, r.randbytes(r.randrange(1, 64)), orig[:r.randrange(1, len(orig))], b"\0" * 16, b"\n"]); cls = "extended"
                elif x < .4:
                    i = r.randrange(len(b)); j = min(len(b), i + r.randrange(1, 30))
                    b[i:j] = r.choice([b"", r.randbytes(j - i), b"\0" * (j - i), b"\xff" * (j - i), bytes(b[i:j]) * 2]); cls = "splice"
                elif x < .5:
                    for _ in range(r.randrange(2, 8)): b[r.randrange(len(b))] = r.randrange(256)
                    cls = "bytes"
                elif x < .6:
                    i, j = sorted((r.randrange(len(b)), r.randrange(len(b)))); b = b[i:j + 1]; cls = "middle"
                elif x < .7:
                    i = r.randrange(len(bs) - 1 or 1); p = bs[i] if i < len(bs) else 0
                    q = p + r.choice([0, 4, 8, 12]); b[q:q + 4] = struct.pack("<I", r.choice([0, 1, 15, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, len(orig), 2 ** 24])); cls = "header"
                elif x < .8 and len(bs) > 2:
                    seg = [bytes(b[p:q]) for p, q in zip(bs, bs[1:])]
                    y = r.random()
                    if y < .3: seg.pop(r.randrange(len(seg)))
                    elif y < .5: seg.append(r.choice(seg))
                    elif y < .7: r.shuffle(seg)
                    else: seg.insert(r.randrange(len(seg) + 1), FOREIGN)
                    b = b"".join(seg); cls = "blocks"
                elif x < .9: b = r.randbytes(r.choice([1, 15, 16, 17, 100, 5000])); cls = "noise"
                else: b = b"POGO" + r.randbytes(r.choice([0, 1, 12, 13, 100])); cls = "noise"
                judge_(bytes(b), orig, want, cls); o["mut"] += 1
            for _ in range(120):
                if time.time() - t0 > seconds: break
                b, good, must = crafted(r)
                judge_(b, orig, want, "crafted", (good, must)); o["crafted"] += 1
            # read errors while loading
            for _ in range(10):
                L.srv.ctl.clear_faults(); L.srv.ctl.set(armed=1, fkind=K_READ, findex=r.randrange(2 * len(bs)), faction=r.choice([A_ERRNO, A_STICKY, A_SHORT]), ferrno=r.choice([5, 4]))
                shutil.copy(path, dam)
                ok, got = L.read(dam)
                hit = L.srv.ctl.fhit
                L.srv.ctl.clear_faults()
                o["faults"] += hit
                for k, g in got.items():
                    if not same(g, want.get(k, (None, None, 0))): fail("read:invented", f"a read error brought in {k!r}", orig)
                if ok and set(got) != set(want): fail("read:accepted", f"a load that met a read error reported success with {len(got)} of {len(want)} entries", orig)
            L.c.cmd(b"FLUSHALL")
            L.srv.ctl.set(threadskip=r.choice([0, 1, 1, 2]), threadfail=r.choice([1, -1]))
            v = L.c.cmd(b"LOAD", b"FROM", path.encode(), b"FAST")
            L.srv.ctl.set(threadfail=0, threadskip=0)
            if v == ("+", b"OK") and len(L.c.cmd(b"KEYS", b"*")[1]) != len(want): fail("thread:accepted", "a load without threads reported success", orig)
            # starting on a damaged file
            if r.random() < .6:
                b = bytearray(orig); i = r.randrange(len(b)); b[i] ^= 1 << r.randrange(8)
                if r.random() < .4:
                    b = b[:r.randrange(1, len(b))]
                if blocks(b) is None or (blocks(b) == blocks(orig) and len(b) == len(orig)):
                    with open(dam, "wb") as f: f.write(b)
                    try:
                        s2 = Server(["--persist", dam], virtual=True, dir=d, threads=1, shards=2)
                        s2.cleanup()
                        fail("start:accepted", "a server started on a damaged snapshot without an error", bytes(b))
                    except StartFailed as e:
                        o["starts"] += 1
                        if e.rc in (0, None) or e.rc < 0: fail("start:status", f"a server asked to start on a damaged snapshot ended with status {e.rc}", bytes(b))
            L.srv.check()
        if reported:
            b, cls, g, w = reported["blockwise"]
            o["known"].add(("blockwise", f"a snapshot of which whole blocks were removed, repeated or replaced loads with success ({g} of {w} entries)", b[:4000].hex()))
        return o
    finally:
        L.srv.cleanup()
        drop_scratch(d)
