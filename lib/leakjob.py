"""Whatever commands a server executes, the memory of the entries comes back when they are gone (C09)."""
from session import *
from kv import *
from framing import Framer
from persist import rconf, bad
from flushjob import open_conn

def passes(r):
    """Requests that walk over entries, keep some and pass others by."""
    P = [b"*", b"nosuch*", b"k*", b"?", b"k1?", b"\\k*", b"*9"]
    return [[b"KEYS", r.choice(P)], [b"SCAN", b"0", b"MATCH", r.choice(P), b"COUNT", r.choice([b"1", b"5", b"1000"])], [b"SCAN", b"%d" % r.randrange(200), b"COUNT", b"7"], [b"MGET"] + [b"k%d" % r.randrange(60) for _ in range(5)],
            [b"MGETS"] + [b"k%d" % r.randrange(60) for _ in range(5)], [b"EXISTS", b"k1", b"k2", b"zz"], [b"TOUCH", b"k1", b"k2", b"zz"], [b"DEL", b"k1", b"k2", b"zz"], [b"SWEEP"], [b"SWEEP", b"FAST"], [b"PURGE"], [b"DBSIZE"], [b"SAVE", b"TO", b"s"],
            [b"SAVE", b"TO", b"s", b"FAST"], [b"LOAD", b"FROM", b"s"], [b"LOAD", b"FROM", b"s", b"FAST"], [b"SAVE", b"TO", b"sub/s"], [b"LOAD", b"FROM", b"nosuch"], [b"EXPIRE", b"k3", b"0"], [b"EXPIRE", b"k4", b"100"], [b"SET", b"k5", b"x" * 3000, b"GET"],
            [b"SET", b"k5", b"y", b"NX"], [b"SET", b"zz", b"y", b"XX"], [b"SET", b"k6", b"y", b"KEEPTTL"], [b"SET", b"k6", b"y", b"CAS", b"99"], [b"APPEND", b"k7", b"z" * 200], [b"INCR", b"k8"], [b"INCR", b"n"], [b"PREPEND", b"k9", b"q"], [b"TTL", b"k2"], [b"GET", b"k5"],
            [b"DEBUG", b"POPULATE", b"50", b"pp", b"20"], [b"STATS"]]

def burst(srv, cas, seed, conns, nomem, noseq):
    """The same requests every time."""
    r = rng("leak", seed)
    o = {"reqs": 0, "replies": 0, "kinds": set()}
    c = conns["resp"]
    for i in range(40): c.send(enc_resp([b"SET", b"k%d" % i, b"v%d" % i * r.choice([1, 5, 60])] + ([b"EX", b"1000"] if i % 3 == 0 else []) + ([b"FLAGS", b"7"] if i % 4 == 0 else [])))
    for i in range(40): c.read(resp)
    # background work, some of it started while the same is already on its way
    if r.random() < .7:
        n = r.choice([1, 8, 16])
        q = [r.choice([b"SWEEP", b"SWEEP", b"FLUSHALL"]), b"ASYNC"]
        c.send(enc_resp(q) * n)
        for _ in range(n): c.read(resp)
        o["reqs"] += n
    q = [r.choice(passes(r)) for _ in range(30)]
    for a in q:
        x = c.cmd(*a)
        o["reqs"] += 1
    F = Framer(srv, r, o)
    F.nomem = nomem
    F.model = Model(srv.ctl.boot, srv.ctl.real, cas)
    F.gen = Gen(r, nkeys=12, maxlen=3000, cas=cas)
    for p in ("resp", "inline", "mc", "pgq", "pge"):
        F.batch(conns[p], p, 25, [])
    for _ in range(2):
        k = b"k%d" % r.randrange(50)
        for b in (http_put(k, b"x" * r.randrange(500)), http_get(k), http_del(k)):
            h = Conn(srv.connect()); h.send(b); h.read(http); h.close()
            o["reqs"] += 1
    if c.cmd(b"FLUSHALL", b"SYNC") != ("+", b"OK"): bad("leak:flush", "FLUSHALL SYNC failed", argv=srv.argv)
    return o["reqs"] + 40

def leak_job(n, seconds):
    r = rng("leakjob", n)
    t0 = time.time()
    o = {"bursts": 0, "reqs": 0, "kinds": set(), "servers": 0}
    while time.time() - t0 < seconds or not o["servers"]:
        a, kw = rconf(r)
        cas = "--cas" in a
        low = r.random() < .3
        if low: a += ["--maxmemory", "1"]
        kw["shards"] = r.choice([1, 3, 16])
        nomem = low and "--evict" in a
        with Server(a, **kw) as srv:
            srv.allow_escape = True      # requests may name any path; the shim refuses the ones outside
            os.mkdir(srv.dir + "/sub", 0o555)
            if low: time.sleep(1.2)
            conns = {p: open_conn(srv, p) for p in ("resp", "inline", "mc", "pgq", "pge")}
            conns["inline"].send(b"PING\r\n"); conns["inline"].read(resp)
            for seed in range(3):
                s = (n, o["servers"], seed)
                for _ in range(3): o["reqs"] += burst(srv, cas, s, conns, nomem, seed)
                def measure():
                    o["reqs"] += burst(srv, cas, s, conns, nomem, seed); o["bursts"] += 1
                    return srv.allocbytes()
                grows = []
                for turn in range(3):
                    m = [measure() for _ in range(4)]
                    g = [y - x for x, y in zip(m, m[1:])]
                    grows += g
                    if min(g) < 16: break
                else:
                    bad("leak:entries", f"the same commands, followed by FLUSHALL, cost more memory every time: {grows} bytes", argv=srv.argv, seed=list(s))
                o["kinds"].add(("leak", low, cas, kw["shards"], seed))
            for c in conns.values(): c.close()
            srv.check()
        o["servers"] += 1
    return o
