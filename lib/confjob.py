"""What each start-up option does, what is refused, and what does not depend on the options (C28)."""
import itertools, threading
from session import *
from kv import *
from server import *
import server as srvmod
from persist import rconf, bad

YESNO = ["evict", "reuseport", "trackallocs", "tcpnodelay", "keepalive", "cas", "autosweep", "uring", "quickack", "sixpack", "keysixpack"]
NUM = ["threads", "shards", "backlog", "queuesize", "maxconns", "loadfactor", "seed"]
OTHER = ["port", "maxmemory", "auth", "persist", "noticker", "warmup", "allocator"]

def opt(r, name, val):
    """The option in one of its two forms."""
    return [f"--{name}={val}"] if r.random() < .5 else [f"--{name}", val]

def raw(args, d, timeout=30):
    """Runs the program with exactly these arguments; (exit status or None when it is serving, output, process)."""
    exe = build.server("asan")
    ctl = Ctl(os.path.join(d, "ctlraw"))
    log = os.path.join(d, "lograw%d" % raw.n); raw.n += 1
    e = {"PATH": "/usr/bin:/bin", "HOME": d, "PGSHIM_ROOT": d, "PGSHIM": os.path.join(d, "ctlraw"), "ASAN_OPTIONS": srvmod.ASAN % 0}
    kw = dict(user=65534, group=65534, extra_groups=[]) if srvmod._can_user(exe) else {}
    with open(log, "wb") as f:
        p = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, cwd=d, env=e, **kw)
    p.ctl = ctl
    with srvmod._live_lock: srvmod._live.add(p)
    t0 = time.time()
    while p.poll() is None and time.time() - t0 < timeout:
        with open(log, "rb") as f: out = f.read()
        if b"Ready to accept" in out: return None, out, p
        time.sleep(.005)
    with open(log, "rb") as f: out = f.read()
    rc = p.poll()
    end(p)
    if b"runtime error:" in out or b"Sanitizer" in out: bad("conf:crash", f"the program crashed at start: {out[-800:]!r}", argv=args)
    if rc is None: bad("conf:hang", f"neither serving nor refused within {timeout} s", argv=args)
    return rc, out, None
raw.n = 0

def end(p):
    try: p.kill()
    except OSError: pass
    p.wait()
    with srvmod._live_lock: srvmod._live.discard(p)

# ------------------------------------------------------------------ refusals
BADYN = ["", "YES", "Yes", "true", "1", "0", "on", "off", "ye", "yess", " yes", "yes ", "nO", "n", "y", "no\n", "yesno", "-"]
BADPORT = ["-1", "65536", "99999", "abc", "80x", " 80", "8 0", "1.5", "18446744073709551617", "4294967376", "0x50", "--", "80,81"]
BADMEM = ["", "0", "-1", "abc", "5x", "nan", "inf", "-5%", "50%%", "10mbb", "10 q", "%", "k", "1kk", "10bk", "0%", "0k", "unlimited ", "Unlimited", "50 % x", "1e999"]
BADALLOC = ["", "foo", "Stock", "stock ", "malloc", "jemallocx", "STOCK"]

def refused_case(r):
    """Arguments that must be refused."""
    w = r.random()
    if w < .35:
        n = r.choice(YESNO); return n, opt(r, n, r.choice(BADYN))
    if w < .5: return "port", opt(r, "port", r.choice(BADPORT)) if r.random() < .6 else ["-p", r.choice(BADPORT)]
    if w < .65:
        v = r.choice(BADMEM)
        if r.random() < .2: return "maxmemory", ["-m", r.choice(["x", "-1", "0", "5k", "nan"])]
        return "maxmemory", opt(r, "maxmemory", v)
    if w < .72: return "allocator", opt(r, "allocator", r.choice(BADALLOC))
    if w < .87:
        u = r.choice(["--nosuch", "--thread", "--threadss", "-x", "foo", "", "-", "--", "-vvvv", "--Threads", "--nosuch=1", "-threads", "--evict-", "-V", "--CAS=yes", "---cas", "-P", "--thread=4", "--casyes", "-v=1", "-p=80", "80", "-H", "--tls"])
        return "unknown", [u]
    return "missing", None

def refusals(r, o, seconds):
    d = scratch("conf")
    try:
        t0, n = time.time(), 0
        while time.time() - t0 < seconds or not n:
            kind, a = refused_case(r)
            pers = os.path.join(d, "data%d" % n)
            sock = os.path.join(d, "r%d.sock" % n)
            ok = []
            for _ in range(r.randrange(3)): ok += r.choice([x for x in (["--threads", "2"], ["--shards=7"], ["-v"], ["--cas", "yes"], ["--evict=no"], ["--persist", pers], ["--auth", "pw"], ["--maxmemory", "50%"], ["--loadfactor", "80"]) if not x[0].startswith("--" + kind)])
            base = ["-s", sock, "-h", "127.0.0.1"] + (["-p", "0"] if kind != "port" else [])
            if kind == "missing": args = base + ok + [r.choice(["--" + x for x in YESNO + NUM + OTHER] + ["-p", "-h", "-s", "-t", "-m"])]
            else:
                parts = [base, ok, a]; r.shuffle(parts)
                args = sum(parts, [])
            rc, out, p = raw(args, d)
            if p: end(p); bad("conf:accepted", f"the invalid option {a or args[-1]!r} ({kind}) was accepted", argv=args)
            if rc <= 0 or rc >= 90: bad("conf:refusal", f"the invalid option {a or args[-1]!r} ({kind}) ended the program with status {rc}: {out[:600]!r}", argv=args)
            if not out.strip(): bad("conf:silent", f"the invalid option {a or args[-1]!r} was refused without a message", argv=args)
            if os.path.exists(sock) or os.path.exists(pers): bad("conf:sideeffect", f"a refused start left {os.listdir(d)}", argv=args)
            o["refusals"] += 1; n += 1
            o["kinds"].add((kind, str(a or args[-1])))
        for a in (["-p", "0"], ["--port=0"], ["-p", ""], ["-p", "0", "-s", ""], ["-h", "nosuch.invalid", "-p", "1"], ["-h", "::1", "-p", str(free_port())], ["-s", os.path.join(d, "x" * 150), "-p", "0"]):
            rc, out, p = raw(a, d, 60)
            if p: end(p); bad("conf:accepted", f"started with {a} although it cannot listen there", argv=a)
            if rc <= 0 or rc >= 90 or not out.strip(): bad("conf:refusal", f"{a} ended the program with status {rc}: {out[:600]!r}", argv=a)
            o["refusals"] += 1
        for a in (["--help"], ["--version"], ["--threads", "3", "--help"], ["--cas=yes", "--version"]):
            rc, out, p = raw(a, d)
            if p: end(p)
            if rc != 0 or not out.strip(): bad("conf:help", f"{a} ended the program with status {rc}: {out[:300]!r}", argv=a)
            if "--help" in a:
                for x in ("--threads", "--maxmemory", "--evict", "--persist", "--maxconns", "--auth", "--shards", "--backlog", "--queuesize", "--reuseport", "--tcpnodelay", "--quickack", "--uring", "--loadfactor", "--autosweep", "--cas", "--allocator"):
                    if x.encode() not in out: bad("conf:help", f"{x} is missing in the help", argv=a)
            o["refusals"] += 1
    finally: drop_scratch(d)

# ------------------------------------------------------------------ probes
def stat(srv, name):
    c = Resp(srv.connect())
    v = c.stats()[name]
    c.close()
    return int(v)

def refuses(host, port):
    s = socket.socket(); s.settimeout(5)
    try: s.connect((host, port)); return False
    except ConnectionRefusedError: return True
    finally: s.close()

def p_sockopts(r, o):
    """Settings made on the sockets."""
    for name, field, dflt in (("tcpnodelay", "nodelay", "yes"), ("keepalive", "keepalive", "yes"), ("quickack", "quickack", "no")):
        for v in (None, "yes", "no"):
            w = v or dflt
            a = opt(r, name, v) if v else []
            with Server(a + ["--warmup", "no"], tcp=True) as s:
                base = (getattr(s.ctl, field), getattr(s.ctl, field + "off"))
                cs = [Resp(s.connect(tcp=True)) for _ in range(3)]
                for c in cs: c.cmd(b"PING")
                on = getattr(s.ctl, field) - base[0]
                if (on >= 3) != (w == "yes"): bad("conf:" + name, f"--{name} {v or '(default)'}: {on} of 3 accepted connections have the option set", argv=s.argv)
                u = Resp(s.connect()); u.cmd(b"PING")
                for c in cs + [u]: c.close()
                o["probes"] += 1; o["kinds"].add((name, v))
    for name, field, vals in (("backlog", "backlog", [(None, 1024), ("7", 7), ("300", 300)]),
                              ("queuesize", "evmax", [(None, 128), ("1", 1), ("7", 7), ("4096", 4096), ("0", 1), ("-5", 1), ("5000", 4096), ("100000", 4096)])):
        for v, w in vals:
            a = opt(r, name, v) if v else []
            with Server(a, tcp=r.random() < .5) as s:
                cs = [Resp(s.connect()) for _ in range(5)]
                for c in cs: c.send(enc_resp([b"PING"]) * 20)
                for c in cs:
                    for _ in range(20):
                        if c.read(resp) != ("+", b"PONG"): bad("conf:" + name, f"--{name} {v}: PING failed", argv=s.argv)
                got = getattr(s.ctl, field)
                if got != w: bad("conf:" + name, f"--{name} {v or '(default)'}: the server works with {got}, expected {w}", argv=s.argv)
                o["probes"] += 1; o["kinds"].add((name, v))

def p_listen(r, o):
    """Where the server can be reached."""
    port = free_port()
    form = r.choice([["-p", str(port)], ["--port", str(port)], [f"--port={port}"]])
    for h, refused in ((None, True), ("127.0.0.1", True), ("127.0.0.3", False), ("0.0.0.0", False), ("localhost", True)):
        d = scratch("conf")
        try:
            rc, out, p = raw(form + (["-h", h] if h else []), d)
            if not p: bad("conf:host", f"{form} -h {h} ended with status {rc}: {out[:300]!r}")
            try:
                if refuses("127.0.0.3", port) != refused: bad("conf:host", f"-h {h or '(default)'} -p {port}: 127.0.0.3 is {'reachable' if refused else 'not reachable'}")
                if refuses("127.0.0.1", port) != (h == "127.0.0.3"): bad("conf:host", f"-h {h or '(default)'} -p {port}: 127.0.0.1 is {'reachable' if h == '127.0.0.3' else 'not reachable'}")
                # -p X alone opens no other port and no socket
                ls = listeners(p.ctl)
                if ls != (1, 0): bad("conf:listen", f"{form} -h {h}: the server listens on {ls}")
            finally: end(p)
        finally: drop_scratch(d)
        o["probes"] += 1; o["kinds"].add(("host", h))
    if refuses("127.0.0.1", 9401):
        d = scratch("conf")
        try:
            rc, out, p = raw([], d)
            if p:
                try:
                    if refuses("127.0.0.1", 9401): bad("conf:port", "without options the server does not listen on 127.0.0.1:9401")
                finally: end(p)
            elif b"bind" not in out: bad("conf:port", f"without options the program ended with status {rc}: {out[:300]!r}")
        finally: drop_scratch(d)
        o["kinds"].add(("port", None))
    with Server([]) as s:                          # -p 0 -s
        ls = listeners(s.ctl)
        if ls != (0, 1): bad("conf:listen", f"-p 0 with a socket: the server listens on {ls}", argv=s.argv)
    with Server([], tcp=True) as s:
        ls = listeners(s.ctl)
        if ls != (1, 1): bad("conf:listen", f"a port and a socket: the server listens on {ls}", argv=s.argv)
    # two servers on one port
    for a, b in (("yes", "yes"), ("no", "no"), ("yes", "no"), (None, None)):
        port = free_port()
        d = scratch("conf")
        try:
            rc, out, p = raw(["-p", str(port)] + (["--reuseport", a] if a else []), d)
            if not p: raise HarnessError(f"first server: {rc} {out!r}")
            rc2, out2, p2 = raw(["-p", str(port)] + (opt(r, "reuseport", b) if b else []), d)
            if p2: end(p2)
            end(p)
            if bool(p2) != (a == b == "yes"): bad("conf:reuseport", f"a server with --reuseport {b} on the port of one with --reuseport {a}: {'starts' if p2 else 'does not start'} ({out2[-300:]!r})")
        finally: drop_scratch(d)
        o["probes"] += 1; o["kinds"].add(("reuseport", a, b))

def listeners(ctl):
    """Whether the server listens on TCP and on unix sockets."""
    return min(ctl.listentcp, 1), min(ctl.listenunix, 1)

def p_counts(r, o):
    """Threads, connections, shards, load factor, packing."""
    base = None
    for v, w in (("1", 1), ("5", 5), ("2", 2), ("0", os.cpu_count()), ("-4", os.cpu_count())):
        flag = r.choice([["--threads", v], [f"--threads={v}"], ["-t", v]])
        with Server(flag + ["--shards", "4", "--warmup", "no"], defaults=False) as s:
            nproc = len(os.sched_getaffinity(0))
            ws = (w,) if int(v) > 0 else (os.cpu_count(), nproc)
            if base is None: time.sleep(.5); base = s.threads_now() - 1
            t0 = time.time()                       # threads start one after the other
            while (n := s.threads_now()) - base not in ws and time.time() - t0 < 5: time.sleep(.02)
            if n - base not in ws: bad("conf:threads", f"{flag}: {n - base} event threads, expected {ws}", argv=s.argv)
            if stat(s, "threads") not in ws: bad("conf:threads", f"{flag}: STATS threads is {stat(s, 'threads')}", argv=s.argv)
            o["probes"] += 1; o["kinds"].add(("threads", v))
    for v, w in (("3", 3), ("1", 1), ("0", 1024), ("-7", 1024), (None, 1024)):
        with Server(opt(r, "maxconns", v) if v else [], tcp=r.random() < .3) as s:
            t0 = time.time()
            while time.time() - t0 < 20:
                c = Resp(s.connect())
                try: st = c.stats()
                except (Closed, OSError): c.close(); continue        # a start-up connection was still open
                if int(st["curr_connections"]) == 1: break
                c.close(); time.sleep(.01)
            if int(st["max_connections"]) != w: bad("conf:maxconns", f"--maxconns {v}: STATS says {st['max_connections']}, expected {w}", argv=s.argv)
            if w < 10:
                cs = [c]
                for i in range(w - 1):
                    cs.append(Resp(s.connect()))
                    if cs[-1].cmd(b"PING") != ("+", b"PONG"): bad("conf:maxconns", f"connection {i + 2} of {w} refused", argv=s.argv)
                x = Resp(s.connect())
                try:
                    x.cmd(b"PING"); bad("conf:maxconns", f"connection {w + 1} of {w} was served", argv=s.argv)
                except (Closed, OSError): pass
                x.close()
                for c in cs: c.close()
            o["probes"] += 1; o["kinds"].add(("maxconns", v))
    # memory of an empty server grows with the shards; clamped values equal their limit
    mem = {}
    for v in ("1", "1000", "4096", "20000", "65536", None, "0", "-3", "65537", "1000000"):
        with Server((opt(r, "shards", v) if v else []) + ["--threads", "1", "--warmup", "no"], defaults=False) as s:
            c = Resp(s.connect()); c.cmd(b"PING")
            mem[v] = s.allocbytes()
            c.close()
        o["probes"] += 1; o["kinds"].add(("shards", v))
    per = (mem["65536"] - mem["1"]) / 65535
    near = lambda a, b: abs(a - b) < 4096 + per * 20
    if per < 16: bad("conf:shards", f"memory does not depend on --shards: {mem}")
    for v, w in (("1000", 1000), ("4096", 4096), ("20000", 20000), (None, 4096), ("0", 4096), ("-3", 4096), ("65537", 65536), ("1000000", 65536)):
        if not near(mem[v], mem["1"] + per * (w - 1)): bad("conf:shards", f"--shards {v}: a server holds {mem[v]} bytes, with {w} shards it would hold about {mem['1'] + per * (w - 1):.0f}")
    # the table of one shard is doubled at a load given by the factor
    grow = {}
    for v in ("55", "75", "95", None, "1", "54", "100", "0"):
        with Server((opt(r, "loadfactor", v) if v else []) + ["--threads", "1", "--warmup", "no", "--shards", "1", "--autosweep", "no"], defaults=False) as s:
            c = Resp(s.connect()); c.cmd(b"PING")
            # jumps of the allocated size show the growth of the table
            last, at = s.allocbytes(), None
            c.send(b"".join(enc_resp([b"SET", b"%06d" % i, b"v"]) for i in range(1000)))
            for i in range(1000): c.read(resp)
            last = s.allocbytes()
            i = 1000
            while i < 2100:
                c.send(b"".join(enc_resp([b"SET", b"%06d" % j, b"v"]) for j in range(i, i + 16)))
                for _ in range(16): c.read(resp)
                i += 16
                m = s.allocbytes()
                if m - last > 4000: at = i
                last = m
            grow[v] = at
            c.close()
        o["probes"] += 1; o["kinds"].add(("loadfactor", v))
    for v, w in (("1", "55"), ("54", "55"), ("0", "55"), ("100", "95"), (None, "75")):
        if grow[v] != grow[w]: bad("conf:loadfactor", f"--loadfactor {v} grows the table at {grow[v]} keys, {w} at {grow[w]}")
    g = [grow[x] for x in ("55", "75", "95")]
    if None in g or not (abs(g[1] - g[0] * 75 / 55) < 50 and abs(g[2] - g[0] * 95 / 55) < 50): bad("conf:loadfactor", f"the table grows at {grow} keys")
    # packed keys need less memory
    size = {}
    for v, n in ((None, ""), ("yes", "sixpack"), ("no", "sixpack"), ("no", "keysixpack"), ("yes", "keysixpack")):
        with Server((opt(r, n, v) if v else []) + ["--threads", "1", "--warmup", "no"]) as s:
            c = Resp(s.connect())
            c.send(b"".join(enc_resp([b"SET", b"compressible-key-number-%06d" % i, b"v"]) for i in range(500)))
            for i in range(500): c.read(resp)
            size[n, v] = stat(s, "bytes")
            c.close()
        o["probes"] += 1; o["kinds"].add((n, v))
    if len({x for k, x in size.items() if k[1] != "no"}) != 1 or size["sixpack", "no"] != size["keysixpack", "no"] or not size["", None] < size["sixpack", "no"] - 500 * 4: bad("conf:sixpack", f"500 keys take {size} bytes")

def p_time(r, o):
    """Sweeping."""
    for v in (None, "yes", "no"):
        with Server((opt(r, "autosweep", v) if v else []), virtual=True) as s:
            c = Resp(s.connect())
            c.send(b"".join(enc_resp([b"SET", b"k%d" % i, b"v", b"EX", b"10"]) for i in range(300)))
            for i in range(300): c.read(resp)
            for i in range(9): c.cmd(b"SET", b"stay%d" % i, b"v")
            s.advance(20 * SEC)
            t0 = time.time()
            lim = 3.5 if v == "no" else 30
            while time.time() - t0 < lim:
                n = stat(s, "curr_items")
                if n == 9: break
                time.sleep(.1)
            if v == "no" and n != 309: bad("conf:autosweep", f"--autosweep no: {n} of 309 entries are left although nobody swept", argv=s.argv)
            if v != "no" and n != 9: bad("conf:autosweep", f"--autosweep {v or '(default)'}: {n} entries are left 30 s after 300 of 309 expired", argv=s.argv)
            c.close()
        o["probes"] += 1; o["kinds"].add(("autosweep", v))

def p_memory(r, o):
    """Memory limits in every notation, on both sides of what the server uses; eviction."""
    with Server([], threads=1) as s:
        time.sleep(.1)
        rss = stat(s, "rss")
    tot = next(int(x.split()[1]) * 1024 for x in open("/proc/meminfo") if x.startswith("MemTotal"))
    try:
        for f in ("/sys/fs/cgroup/memory.max", "/sys/fs/cgroup/memory/memory.limit_in_bytes"):
            if os.path.exists(f): o["kinds"].add(("cgroup", open(f).read().strip()[:20]))
    except OSError: pass
    def forms(b):
        k = b / 1024
        return [("%d" % b,), ("%dk" % k,), ("%.3fM" % (k / 1024),), ("%.6fgb" % (k / 1024 ** 2),), ("%.9f T" % (k / 1024 ** 3),), (" %dKB" % k,), ("%.6f%%" % (100 * b / tot),), ("-m", "%.3f" % (k / 1024)), ("%.3e" % b,)]
    cases = []
    for f in forms(rss // 2): cases.append((f, True))
    for f in forms(rss * 4): cases.append((f, False))
    r.shuffle(cases)
    ss = []
    for f, low in cases[:tier(8, len(cases))] + [(("unlimited",), False), ((None,), False), (("99999999999t",), False), (("1e30",), False), (("100%",), False)]:
        ev = r.choice(["no", "no", "yes", None, "-M"])
        a = [] if f[0] is None else ["-m", f[1]] if f[0] == "-m" else opt(r, "maxmemory", f[0])
        a += ["-M"] if ev == "-M" else opt(r, "evict", ev) if ev else []
        s = Server(a, threads=1)
        ss.append((s, f, low, ev))
    try:
        time.sleep(2.6)
        for s, f, low, ev in ss:
            c = Resp(s.connect())
            t0 = time.time()
            while True:
                x = c.cmd(b"SET", b"k%d" % r.randrange(99), b"v")
                oom = x[0] == "-"
                want = low and ev in ("no", "-M")
                if oom == want or time.time() - t0 > 15: break
                time.sleep(.2)
            if oom != want: bad("conf:maxmemory", f"--maxmemory {f} with --evict {ev} while the server uses {stat(s, 'rss')} bytes ({tot} in the system): SET answers {x!r}", argv=s.argv)
            if low and ev not in ("no", "-M"):
                # entries make room for one another
                c.send(b"".join(enc_resp([b"SET", b"key%d" % i, b"v" * 100]) for i in range(2000)))
                for i in range(2000):
                    if c.read(resp) != ("+", b"OK"): bad("conf:evict", f"--evict {ev}: a SET above the limit failed", argv=s.argv)
                n = stat(s, "curr_items")
                if n > 1000: bad("conf:evict", f"--evict {ev}: {n} of 2000 entries are stored although the memory limit is exceeded", argv=s.argv)
            elif not low:
                c.send(b"".join(enc_resp([b"SET", b"key%d" % i, b"v"]) for i in range(300)))
                for i in range(300): c.read(resp)
                got = c.cmd(b"MGET", *[b"key%d" % i for i in range(300)])
                if any(x != ("$", b"v") for x in got[1]): bad("conf:evict", f"--maxmemory {f}: entries vanished below the memory limit", argv=s.argv)
            c.close()
            s.check()
            o["probes"] += 1; o["kinds"].add(("maxmemory", f[0] and re.sub(r"[\d.]+", "N", f[0]), low, ev))
    finally:
        for s, *_ in ss: s.cleanup()

def p_memedge(r, o):
    """A memory limit is the number it says: the server is told what it uses, a page above and a page below, again and again."""
    pg = os.sysconf("SC_PAGESIZE")
    K = 1024
    lims = [("100m", 100 * K * K), ("1gb", K ** 3), ("1.5g", 3 * K ** 3 // 2), ("5242880", 5242880), ("700k", 700 * K), ("2T", 2 * K ** 4), ("3 MB", 3 * K * K), ("8192.5kb", 8192 * K + 512), ("4e6", 4000000)]
    ss = []
    for name, b in r.sample(lims, tier(5, len(lims))):
        ev = r.choice(["no", "no", "yes"])
        s = Server(opt(r, "maxmemory", name) + opt(r, "evict", ev), threads=1, shards=1)
        s.ctl.set(fakerss=max(1, b // pg - 1))
        ss.append((s, name, b, ev, Resp(s.connect())))
    try:
        s, name, b, ev, c = ss[0]
        if stat(s, "rss") != s.ctl.fakerss * pg:
            o["kinds"].add("memedge:not-applicable"); return      # usage is read in some other way
        seq = [0] * len(ss)
        for phase in range(6):
            marks = []
            for i, (s, name, b, ev, c) in enumerate(ss):
                above = phase % 2 == 1
                u = b // pg + 1 if above else max(1, -(-b // pg) - 1)
                if phase >= 2 and r.random() < .4: u = u * r.choice([2, 3, 50]) if above else max(1, u - u // r.choice([4, 20, 1000]))
                s.ctl.set(fakerss=u)
                marks.append((above, u))
            time.sleep(2.2)
            for i, ((s, name, b, ev, c), (above, u)) in enumerate(zip(ss, marks)):
                t0 = time.time()
                def low():
                    if ev == "no":
                        x = c.cmd(b"SET", b"k%d" % r.randrange(99), b"v")
                        if x == ("+", b"OK"): return False
                        if x[0] == "-" and b"memory" in x[1].lower(): return True
                        bad("conf:memedge", f"SET answers {x!r} with --maxmemory {name}", argv=s.argv)
                    n0 = stat(s, "curr_items")
                    for _ in range(40):
                        seq[i] += 1
                        if c.cmd(b"SET", b"n%d" % seq[i], b"v") != ("+", b"OK"): bad("conf:memedge", "a SET failed although eviction is on", argv=s.argv)
                    return stat(s, "curr_items") < n0 + 40
                while low() != above:
                    if time.time() - t0 > 12: bad("conf:memedge", f"--maxmemory {name} ({b} bytes), --evict {ev}: with {u * pg} bytes in use the server {'does not act on' if above else 'still acts on'} the limit", argv=s.argv)
                    time.sleep(.3)
                s.check(); o["probes"] += 1
                o["kinds"].add(("memedge", name, ev, above, phase))
    finally:
        for s, *_ in ss: s.cleanup()

def p_model(r, o):
    """Histories against the model under random options, CAS on and off."""
    for _ in range(2):
        a, kw = rconf(r, cas=False)
        cas = r.random() < .5
        if cas: a += opt(r, "cas", "yes")
        elif r.random() < .5: a += opt(r, "cas", "no")
        with Server(a, virtual=True, **kw) as s:
            S = Session(s, r, "EBFPK", cas=cas)
            run_history(S, Gen(r, cas=cas), tier(40, 400))
            S.close()
        o["probes"] += S.nops; o["kinds"].add(("cas", cas))

def p_misc(r, o):
    """Password, persistence, verbosity and the options without a visible effect."""
    for pw in (None, "secret", ""):
        d = scratch("conf")
        try:
            path = os.path.join(d, "data")
            per = r.random() < .7
            a = (opt(r, "auth", pw) if pw is not None else []) + (opt(r, "persist", path) if per else [])
            a += r.choice([[], ["-v"], ["-vv"], ["-vvv"], ["--noticker", "x"], ["--trackallocs", "yes"], ["--allocator", "stock"], ["--uring", "yes"], ["--uring=no"], ["--warmup=no"]])
            s = Server(a, dir=d)
            c = Resp(s.connect())
            x = c.cmd(b"SET", b"a", b"b")
            if (x[0] == "-") != bool(pw): bad("conf:auth", f"--auth {pw!r}: SET without a password answers {x!r}", argv=s.argv)
            if pw:
                if c.cmd(b"AUTH", b"Secret")[0] != "-": bad("conf:auth", "a wrong password was accepted", argv=s.argv)
                if c.cmd(b"AUTH", pw.encode()) != ("+", b"OK"): bad("conf:auth", "the password was refused", argv=s.argv)
                c.cmd(b"SET", b"a", b"b")
            if c.cmd(b"GET", b"a") != ("$", b"b"): bad("conf:auth", "GET failed", argv=s.argv)
            c.close()
            s.stop(graceful=True)
            if os.path.exists(path) != per: bad("conf:persist", f"after the end of the server the file {path} does {'not ' if per else ''}exist", argv=s.argv)
            left = [f for f in os.listdir(d) if not f.startswith(("log", "ctl", "data")) and not f.endswith(".sock")]
            if left: bad("conf:persist", f"files were left behind: {left}", argv=s.argv)
            if per:
                s = Server(a, dir=d)
                c = Resp(s.connect())
                if pw: c.cmd(b"AUTH", pw.encode())
                if c.cmd(b"GET", b"a") != ("$", b"b"): bad("conf:persist", "the entry is gone after a restart", argv=s.argv)
                c.close(); s.stop()
        finally: drop_scratch(d)
        o["probes"] += 1; o["kinds"].add(("auth", pw, per))

# ------------------------------------------------------------------ equivalence
PERF = {"threads": ["1", "2", "4", "7"], "shards": ["1", "2", "3", "64", "4096", "0"], "loadfactor": ["10", "55", "75", "95", "200"], "sixpack": ["yes", "no"], "queuesize": ["1", "2", "128", "4096", "0"],
        "backlog": ["64", "1024"], "tcpnodelay": ["yes", "no"], "keepalive": ["yes", "no"], "quickack": ["yes", "no"], "autosweep": ["yes", "no"], "evict": ["yes", "no"], "maxmemory": ["unlimited", "70%", "90%"],
        "uring": ["yes", "no"], "warmup": ["yes", "no"], "maxconns": ["100", "0", "20"], "seed": ["0", "1", "99999999999"], "trackallocs": ["yes", "no"], "-v": [None, "-v", "-vvv"], "allocator": ["stock"], "reuseport": ["yes", "no"], "tcp": ["yes", "no"]}

def norm(proto, op, rep):
    """What may differ: the order of keys and the values of CAS numbers."""
    x = rep
    if op.name == "keys":
        if proto in ("resp", "inline") and rep[0] == "*": x = ("*", sorted(rep[1]))
        elif hasattr(rep, "rows"): x = rep._replace(rows=sorted(rep.rows))
    if op.name in ("gets", "mgets"):
        # CAS numbers: only whether they are there
        if proto == "mc" and rep[0] == "values": x = ("values", [(k, f, v, bool(c)) for k, f, v, c in rep[1]])
        else: x = CASNUM.sub(lambda m: b"C" if m.group() != b"0" else b"0", repr(rep).encode()) if op.name in ("gets", "mgets") else rep
    return x
CASNUM = re.compile(rb"(?<![\w\\])\d{4,20}(?!\w)")

def equivalence(r, o, seconds):
    t0 = time.time()
    while time.time() - t0 < seconds:
        gen = Gen(r, cas=False, ttl=True, errors=True, whole=True, big=False, maxlen=3000)
        m = Model(BOOT0, REAL0, True)
        script = []
        for _ in range(60):
            proto = r.choice(PROTOS)
            ops = []
            for _ in range(1 if proto == "http" else r.choice([1, 3, 10])):
                op = gen.op(m)
                if op.p.get("cas") is not None: continue
                if can(proto, op) and op.name not in ("gets", "mgets"): ops.append(op)
                elif proto == "mc" and can(proto, op): ops.append(op)
            if ops: script.append((proto, ops, b"".join(render(proto, op, r) for op in ops)))
        cas = r.choice([[], ["--cas", "yes"]])
        ref = None
        for i in range(6):
            cfg = {k: r.choice(v) for k, v in PERF.items() if r.random() < (.5 if i else .1)}
            a = list(cas)
            for k, v in cfg.items():
                if k == "-v": a += [v] if v else []
                elif k != "tcp": a += opt(r, k, v)
            with Server(a, defaults=False, virtual=True, tcp=cfg.get("tcp") == "yes") as s:
                S = Session(s, r, "")
                out = []
                for proto, ops, b in script:
                    c = S.conn(proto)
                    c.send(b)
                    for op in ops:
                        if noreply(proto, op): continue
                        try: out.append((proto, op, norm(proto, op, read_reply(c, proto))))
                        except (Closed, Timeout, Bad) as e:
                            s.check(); bad("conf:differs", f"{proto} {op!r:.300} failed under {cfg}: {e!r}", argv=s.argv)
                    if proto == "http": c.close()
                c = S.conn("resp")
                ks = sorted(x[1] for x in c.cmd(b"KEYS", b"*")[1])
                out.append(("resp", "content", [(k, c.cmd(b"GET", k), c.cmd(b"PTTL", k)) for k in ks]))
                S.close()
                for x in itertools.combinations(sorted((k, str(v)) for k, v in cfg.items()), 2): o["pairs"].add(x)
                o["replies"] += len(out)
                if ref is None: ref, refargs = out, s.argv
                else:
                    for x, y in zip(ref, out):
                        if x != y: bad("conf:differs", f"{x[0]} {x[1]!r:.300}: {y[2]!r:.400} under {' '.join(a)}, {x[2]!r:.400} under {' '.join(refargs[1:])}", argv=s.argv, other=refargs)
        o["scripts"] += 1

PROBES = [p_sockopts, p_listen, p_counts, p_time, p_memory, p_memedge, p_model, p_misc]
def conf_job(what, n, seconds):
    r = rng("conf", what, n)
    o = {"refusals": 0, "probes": 0, "replies": 0, "scripts": 0, "kinds": set(), "pairs": set()}
    if what == "refusals": refusals(r, o, seconds)
    elif what == "equiv": equivalence(r, o, seconds)
    else: globals()[what](r, o)
    return o
