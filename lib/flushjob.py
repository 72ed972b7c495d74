"""Flushes next to writers and readers (C23)."""
import bisect
from session import *
from persist import rconf, bad

def flusher_cmd(r, proto, sync=True, delay=None):
    """Bytes of a flush request in a protocol."""
    w = r.choice([b"FLUSHALL", b"FLUSHDB", b"FLUSH"])
    o = []
    if sync and r.random() < .4: o.append(b"SYNC")
    if not sync and (delay is None or r.random() < .4): o.append(b"ASYNC")
    if r.random() < .5: o.append(b"FAST")
    if delay is not None:
        o += [b"DELAY", b"%d" % delay]
        # the last word on when is the delay's, whatever is said beside it
        if r.random() < .5: o.insert(r.choice([0, len(o)]), r.choice([b"SYNC", b"SYNC", b"ASYNC", b"FAST"]))
    elif sync and r.random() < .1: o += [b"DELAY", b"0"]
    if r.random() < .2: o = o[::-1] if delay is None and b"DELAY" not in o else o
    o = [x.lower() if r.random() < .2 else x for x in o]
    if proto == "mc": return b"flush_all" + (b" %d" % delay if delay is not None else b"") + b"\r\n"
    if proto == "pgq": return pg_q(b" ".join([w] + o) + r.choice([b"", b";"]))
    if proto == "pge":
        return pg_parse(b" ".join([w] + o)) + pg_bind(()) + pg_exec() + PG_SYNC
    if proto == "inline": return b" ".join([w] + o) + b"\r\n"
    return enc_resp([w] + o)

def open_conn(srv, proto):
    c = {"mc": Mc, "pgq": Pg, "pge": Pg}.get(proto, Resp)(srv.connect())
    if proto in ("pgq", "pge"): c.start()
    return c

def flush_reply(c, proto):
    """True when the flush was acknowledged."""
    if proto == "mc": return c.read(memcache) == ("line", b"OK")
    if proto in ("pgq", "pge"):
        m = c.until_ready()
        return any(x[0] == "C" for x in m) and not any(x[0] == "E" for x in m)
    return c.read(resp) == ("+", b"OK")

FP = ["resp", "mc", "pgq", "pge", "resp", "inline"]

def flush_conc(r, o, seconds):
    a, kw = rconf(r)
    t0 = time.time()
    with Server(a, **kw) as srv:
        adm = Resp(srv.connect())
        nflush0 = 0
        total = 0
        while time.time() - t0 < seconds:
            withasync = r.random() < .2
            big = r.random() < .4
            srv.ctl.set(jitter=r.choice([0, 20, 100]), threaddelay=r.choice([0, 0, 300, 2000]))
            if big: adm.cmd(b"DEBUG", b"POPULATE", b"%d" % r.choice([3000, 20000]), b"pop", b"30")
            log = {"w": {}, "r": [], "f": [], "a": []}
            lk = threading.Lock()
            errs = []
            end = time.monotonic() + r.choice([.15, .4])
            seqs = [0]
            def writer(i, rr):
                try:
                    c = Resp(srv.connect())
                    keys = [b"%d:%d:%d" % (total, i, j) for j in range(rr.choice([3, 30]))]
                    seq = 0
                    while time.monotonic() < end:
                        n = rr.choice([1, 1, 4, 15])
                        plan = []
                        for _ in range(n):
                            k = rr.choice(keys)
                            if rr.random() < .5: seq += 1; plan.append((k, seq))
                            else: plan.append((k, None))
                        t = time.monotonic()
                        c.send(b"".join(enc_resp([b"SET", k, b"%d" % q]) if q else enc_resp([b"GET", k]) for k, q in plan))
                        out = [c.read(resp) for _ in plan]
                        t2 = time.monotonic()
                        with lk:
                            for (k, q), v in zip(plan, out):
                                if q: log["w"].setdefault(k, []).append((q, t, t2))
                                else: log["r"].append((k, int(v[1]) if v != NULL else None, t, t2, i))
                except (Closed, Timeout, Bad) as e: errs.append(repr(e))
            def flusher(i, rr):
                try:
                    proto = rr.choice(FP)
                    c = open_conn(srv, proto)
                    while time.monotonic() < end:
                        sync = not (withasync and rr.random() < .5)
                        b = flusher_cmd(rr, proto, sync) if not (proto == "mc" and not sync) else flusher_cmd(rr, proto, True)
                        if proto == "mc": sync = True
                        t = time.monotonic()
                        c.send(b)
                        ok = flush_reply(c, proto)
                        t2 = time.monotonic()
                        if not ok: errs.append("flush refused: %r" % b)
                        with lk: (log["f"] if sync else log["a"]).append((t, t2, b))
                        if rr.random() < .6: time.sleep(.004 * rr.random())
                except (Closed, Timeout, Bad) as e: errs.append(repr(e))
            def observer(rr):
                try:
                    c = Resp(srv.connect())
                    while time.monotonic() < end:
                        with lk: ks = list(log["w"])
                        if not ks: continue
                        ks = [rr.choice(ks) for _ in range(rr.choice([1, 8, 40]))]
                        t = time.monotonic()
                        v = c.cmd(b"MGET", *ks)[1]
                        t2 = time.monotonic()
                        with lk:
                            for k, x in zip(ks, v): log["r"].append((k, int(x[1]) if x != NULL else None, t, t2, -1))
                except (Closed, Timeout, Bad) as e: errs.append(repr(e))
            ths = [threading.Thread(target=writer, args=(i, rng("fw", r.random())), daemon=True) for i in range(3)]
            ths += [threading.Thread(target=flusher, args=(i, rng("ff", r.random())), daemon=True) for i in range(r.choice([1, 2, 3]))]
            ths += [threading.Thread(target=observer, args=(rng("fo", r.random()),), daemon=True)]
            for t in ths: t.start()
            for t in ths: t.join(60)
            total += 1
            srv.check()
            if errs: bad("flush:client", f"a client next to flushes failed: {errs[0]}", argv=srv.argv)
            # judge
            fs = sorted(log["f"], key=lambda f: f[1])
            acks = [f[1] for f in fs]
            maxreq, m = [], (-1, None)
            for f in fs:
                if f[0] > m[0]: m = (f[0], f)
                maxreq.append(m)
            inf = 1e18
            al = sorted([(f[0], f[1]) for f in fs] + [(x[0], inf) for x in log["a"]])
            reqs = [x[0] for x in al]
            maxack, mm = [], -1
            for x in al:
                mm = max(mm, x[1]); maxack.append(mm)
            for k, q, rs, ra, who in log["r"]:
                ws = log["w"].get(k, [])
                o["reads"] += 1
                if q is not None:
                    w = next((w for w in ws if w[0] == q), None)
                    if w is None: continue          # still unacknowledged then
                    i = bisect.bisect_left(acks, rs) - 1
                    if i >= 0 and maxreq[i][0] > w[2]:
                        f = maxreq[i][1]
                        bad("flush:visible", f"{k!r} version {q}, acknowledged at {w[2] - rs:.6f}, was read at 0 although {f[2]!r} was sent at {f[0] - rs:.6f} and acknowledged at {f[1] - rs:.6f}", argv=srv.argv)
                    if i >= 0: o["after"] += 1
                else:
                    w = None
                    for x in ws:
                        if x[2] < rs: w = x
                    if w is None: continue
                    o["missing"] += 1
                    j = bisect.bisect_left(reqs, ra) - 1
                    if j < 0 or maxack[j] <= w[1]:
                        bad("flush:lost", f"{k!r} version {w[0]}, sent at {w[1] - rs:.6f} and acknowledged at {w[2] - rs:.6f}, was gone at {ra - rs:.6f} although no flush was under way since: last flushes {[(round(f[0] - rs, 6), round(f[1] - rs, 6), f[2]) for f in fs[-5:]]}", argv=srv.argv)
            nflush0 += len(fs) + len(log["a"])
            o["flushes"] += len(fs) + len(log["a"]); o["rounds"] += 1
            for f in fs: o["kinds"].add(("conc", f[2][:24].upper(), big, kw["shards"]))
            # the flush now is final
            srv.ctl.set(threaddelay=0)
            if log["a"]:
                t = time.time()
                while int(adm.stats()["cmd_flush"]) < nflush0:
                    if time.time() - t > 30: bad("flush:never", f"{nflush0} flushes were acknowledged, {adm.stats()['cmd_flush']} carried out after 30 s", argv=srv.argv)
                    time.sleep(.002)
                time.sleep(.05)
            c = open_conn(srv, p := r.choice(FP))
            c.send(flusher_cmd(r, p)); flush_reply(c, p); c.close(); nflush0 += 1
            ks = adm.cmd(b"KEYS", b"*")[1]
            if ks or adm.cmd(b"DBSIZE") != (":", 0):
                bad("flush:left", f"after a flush with no writers {len(ks)} keys remain, e.g. {ks[:2]!r}", argv=srv.argv)
            n = int(adm.stats()["cmd_flush"])
            if n != nflush0: bad("flush:count", f"{nflush0} flushes were requested, {n} were carried out", argv=srv.argv)
            # whole table usable afterwards
            for i in range(20): adm.cmd(b"SET", b"z%d" % i, b"1")
            if adm.cmd(b"DBSIZE") != (":", 20): bad("flush:after", "entries stored after a flush are not counted", argv=srv.argv)

def flush_delay(r, o):
    """Delayed and background flushes, one after another, on real time."""
    a, kw = rconf(r)
    with Server(a, **kw) as srv:
        adm = Resp(srv.connect())
        for proto in r.sample(["resp", "mc", "pgq", "pge", "inline"], 2):
            c = open_conn(srv, proto)
            for b in ([b"FLUSHALL", b"DELAY", b"31536001"], [b"FLUSH", b"DELAY", b"-1"], [b"FLUSHDB", b"DELAY"], [b"FLUSHALL", b"DELAY", b"x"], [b"FLUSHALL", b"DELAYED"], [b"FLUSHALL", b"ASYNC", b"5"]):
                if adm.cmd(*b)[0] != "-": bad("flush:syntax", f"{b!r} was accepted", argv=srv.argv)
            keys = [b"d%d" % i for i in range(200)]
            def put(tag, ks=keys):
                adm.send(b"".join(enc_resp([b"SET", k, tag]) for k in ks))
                for _ in ks: adm.read(resp)
            put(b"A", keys[:150])
            delay = r.choice([1, 1, 1, 2, None])
            n0 = int(adm.stats()["cmd_flush"])
            for w in r.sample([[b"SYNC"], [b"ASYNC"], [b"FAST"], [b"FAST", b"SYNC"], [b"sync", b"async"], []], 2):
                far = [r.choice([b"FLUSHALL", b"flush", b"FlushDB"])] + (w + [b"DELAY", b"31536000"] if r.random() < .3 else [b"DELAY", b"31536000"] + w)
                if adm.cmd(*far) != ("+", b"OK"): bad("flush:refused", f"{far!r} was not acknowledged", argv=srv.argv)
                if any(x == NULL for x in adm.cmd(b"MGET", *keys[:150])[1]): bad("flush:early", f"{far!r} removed entries at once", argv=srv.argv)
            # delays around the widths that seconds, milli- and microseconds are kept in
            for far in r.sample([256, 257, 2148, 4295, 65536, 65537, 86400, 2147484, 4294968, 16777216, 18446745, 31535999], 4):
                x = [b"FLUSHALL", b"DELAY", b"%d" % far]
                if adm.cmd(*x) != ("+", b"OK"): bad("flush:refused", f"{x!r} was not acknowledged", argv=srv.argv)
            b = flusher_cmd(r, proto, False, delay) if proto != "mc" or delay is not None else flusher_cmd(r, "resp", False, None)
            if proto == "mc" and delay is None:
                c.close(); proto = "resp"; c = open_conn(srv, proto)
            t = time.monotonic()
            c.send(b)
            if not flush_reply(c, proto): bad("flush:refused", f"{b!r} was not acknowledged", argv=srv.argv)
            tack = time.monotonic()
            if delay:
                if tack - t > delay - .2 and tack - t < 5 and delay >= 1 and tack - t > .8: o["slow"] += 1
                put(b"B", keys[150:])
                # nothing goes before the delay is over
                while True:
                    v = [x for x in adm.cmd(b"MGET", *keys)[1]]
                    tr = time.monotonic()
                    if any(x == NULL for x in v):
                        if tr < t + delay - .001: bad("flush:early", f"{b!r} removed entries {tr - t:.3f} s after it was sent", argv=srv.argv)
                        break
                    if tr > t + delay + 30: bad("flush:never", f"{b!r} removed nothing within {tr - t:.0f} s", argv=srv.argv)
                    o["polls"] += 1
                    time.sleep(.01)
            t1 = time.monotonic()
            while adm.cmd(b"DBSIZE") != (":", 0):
                if time.monotonic() - t1 > 30: bad("flush:never", f"{b!r} left {adm.cmd(b'DBSIZE')} entries after 30 s", argv=srv.argv)
                time.sleep(.005)
            # once and no more
            time.sleep(.02)
            put(b"C")
            t1 = time.monotonic()
            while time.monotonic() - t1 < (delay or .3) + .3:
                if any(x != ("$", b"C") for x in adm.cmd(b"MGET", *keys)[1]): bad("flush:again", f"entries stored after {b!r} took effect were removed {time.monotonic() - t1:.3f} s later", argv=srv.argv)
                time.sleep(.02)
            n = int(adm.stats()["cmd_flush"])
            if n != n0 + 1: bad("flush:count", f"one flush {b!r} was counted {n - n0} times", argv=srv.argv)
            o["delayed"] += 1
            o["kinds"].add(("delay", proto, delay, kw["shards"]))
            c.close()

def flush_overlap(r, o, seconds):
    """Background flushes requested while another one is at work: whatever was stored before a request goes."""
    a, kw = rconf(r)
    t0 = time.time()
    with Server(a, **kw) as srv:
        adm = Resp(srv.connect())
        cs = [Resp(srv.connect()) for _ in range(3)]
        n0 = 0
        while time.time() - t0 < seconds:
            adm.cmd(b"DEBUG", b"POPULATE", b"%d" % r.choice([2000, 10000, 30000]), b"pop", b"30")
            srv.ctl.set(jitter=r.choice([0, 0, 20]), threaddelay=r.choice([0, 0, 0, 300]))
            m = r.choice([1, 2, 4])
            log = []
            def do(x):
                c = r.choice(cs)
                c.send(x)
                v = c.read(resp)
                if v != ("+", b"OK"): bad("flush:refused", f"{x!r} was answered {v!r}", argv=srv.argv)
                log.append(x)
            for i in range(m):
                do(flusher_cmd(r, "resp", False)); n0 += 1
                w = r.choice([0, 0, .0003, .001, .003, .008])
                if w: time.sleep(w)
                do(enc_resp([b"SET", b"m%d" % i, b"x"]))
                if r.random() < .5: do(enc_resp([b"SET", b"M%d" % i, b"y" * 3000]))
                do(flusher_cmd(r, "resp", False)); n0 += 1
            t = time.monotonic()
            while True:
                left = adm.cmd(b"DBSIZE")
                if left == (":", 0): break
                if time.monotonic() - t > 20:
                    bad("flush:never", f"{left[1]} entries, {adm.cmd(b'KEYS', b'*')[1][:4]!r}, are still there 20 s after the last of {log!r} was acknowledged", argv=srv.argv)
                time.sleep(.002)
            t = time.monotonic()
            while int(adm.stats()["cmd_flush"]) < n0:
                if time.monotonic() - t > 20: bad("flush:count", f"{n0} flushes were requested, {adm.stats()['cmd_flush']} were carried out after 20 s", argv=srv.argv)
                time.sleep(.002)
            if int(adm.stats()["cmd_flush"]) != n0: bad("flush:count", f"{n0} flushes were requested, {adm.stats()['cmd_flush']} were carried out", argv=srv.argv)
            o["overlaps"] += m; o["rounds"] += 1; o["flushes"] += 2 * m
            o["kinds"].add(("overlap", m, kw["shards"]))
        srv.ctl.set(threaddelay=0, jitter=0)

def flush_job(n, seconds):
    r = rng("flush", n)
    t0 = time.time()
    o = {"rounds": 0, "flushes": 0, "reads": 0, "after": 0, "missing": 0, "delayed": 0, "polls": 0, "slow": 0, "overlaps": 0, "kinds": set()}
    while time.time() - t0 < seconds or not o["rounds"]:
        if n % 4 == 3: flush_delay(r, o); o["rounds"] += 1
        else:
            if n % 4 != 3: flush_overlap(r, o, min(2, seconds / 8))
            flush_conc(r, o, min(5, seconds))
    return o
