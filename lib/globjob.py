"""Pattern matching through KEYS and SCAN (C25)."""
import itertools, re
from session import *
from kv import *
from server import *
from persist import rconf, bad
from flushjob import open_conn

def tokens(pat):
    """The definition; None for a pattern that ends in a lone backslash (nothing to make literal: left open)."""
    t, i = [], 0
    while i < len(pat):
        c = pat[i:i + 1]
        if c == b"\\":
            if i + 1 == len(pat): return None
            t.append(("lit", pat[i + 1:i + 2])); i += 2; continue
        t.append(("star", b"") if c == b"*" else ("any", b"") if c == b"?" else ("lit", c)); i += 1
    return t

def compiled(pat):
    t = tokens(pat)
    if t is None: return None
    o = []
    for k, c in t:
        if k == "star":
            if not o or o[-1] != b".*": o.append(b".*")
        else: o.append(b"." if k == "any" else re.escape(c))
    return re.compile(b"".join(o), re.S)

def slow(pat, s):
    """The same by dynamic programming, for patterns on which a backtracking engine would explode."""
    t = tokens(pat)
    n = len(s)
    cur = (1 << 1) - 1              # bit i: the tokens so far match s[:i]
    full = (1 << (n + 1)) - 1
    pos = {}
    for i, c in enumerate(s): pos[c] = pos.get(c, 0) | 1 << i
    for k, c in t:
        if k == "star":
            low = cur & -cur
            cur = full & ~(low - 1) if cur else 0
        elif k == "any": cur = (cur & ~(1 << n)) << 1
        else: cur = (cur & pos.get(c[0], 0)) << 1
        if not cur: return False
    return bool(cur >> n & 1)

class Globs:
    def __init__(self, srv, r):
        self.srv, self.r = srv, r
        self.c = {}
        self.pairs = self.hits = self.pats = self.pages = 0
    def conn(self, proto):
        if proto not in self.c: self.c[proto] = open_conn(self.srv, proto)
        return self.c[proto]
    def fill(self, keys):
        c = self.conn("resp")
        self.keys = sorted(set(keys))
        if c.cmd(b"FLUSHALL", b"SYNC") != ("+", b"OK"): raise HarnessError("flush")
        for i in range(0, len(self.keys), 500):
            part = self.keys[i:i + 500]
            c.send(b"".join(enc_resp([b"SET", k, b"v"]) for k in part))
            for k in part:
                if c.read(resp) != ("+", b"OK"): bad("glob:set", f"SET {k[:80]!r} failed", argv=self.srv.argv)
    def ask(self, proto, how, pat):
        """List of the keys the server says match."""
        c = self.conn(proto)
        if how == "keys":
            a = [b"KEYS", pat]
            if proto == "pge":
                x = c.ext(b"KEYS $1", (pat,)); rows = [m[1] for m in x if m[0] == "D"]
                if any(m[0] == "E" for m in x): bad("glob:error", f"KEYS {pat[:100]!r} failed: {x!r}", argv=self.srv.argv)
                return [y[0] for y in rows]
            if proto == "pgq":
                x = c.query(b"KEYS " + pg_lit(pat)); return [m[1][0] for m in x if m[0] == "D"]
            c.send(enc_inline(a, self.r) if proto == "inline" else enc_resp(a))
            x = c.read(resp)
            if x[0] != "*": bad("glob:error", f"KEYS {pat[:100]!r} gave {x!r}"[:500], argv=self.srv.argv)
            return [y[1] for y in x[1]]
        cur, out, n = b"0", [], 0
        cnt = self.r.choice([None, None, 1 if len(self.keys) < 400 else 50, 7, 1000, 100000])
        while True:
            a = [[b"MATCH", pat]] + ([[b"COUNT", b"%d" % cnt]] if cnt else []) + ([[b"TYPE", b"string"]] if self.r.random() < .2 else [])
            self.r.shuffle(a)
            a = [b"SCAN", cur] + sum(a, [])
            if proto in ("pge", "pgq"):
                if proto == "pge": x = c.ext(b"SCAN $1 " + b" ".join(b"$%d" % (i + 2) for i in range(len(a) - 2)), a[1:])
                else: x = c.query(b"SCAN " + b" ".join(pg_lit(y) for y in a[1:]))
                rows = [m[1] for m in x if m[0] == "D"]
                if any(m[0] == "E" for m in x): bad("glob:error", f"{a!r} failed: {x!r}"[:500], argv=self.srv.argv)
                got = [y[0] for y in rows]
                if not rows: return out            # no row carries the cursor
                cur = rows[0][1]
            else:
                c.send(enc_inline(a, self.r) if proto == "inline" else enc_resp(a))
                x = c.read(resp)
                if x[0] != "*": bad("glob:error", f"{a!r} gave {x!r}"[:500], argv=self.srv.argv)
                cur = x[1][0][1]; got = [y[1] for y in x[1][1][1]]
            out += got; n += 1; self.pages += 1
            if cur == b"0": return out
            if n > 3 * len(self.keys) + 1000: bad("glob:endless", f"SCAN MATCH {pat[:100]!r} did not end", argv=self.srv.argv)
    def check(self, pat, proto=None, how=None, want=None):
        proto = proto or self.r.choice(["resp", "resp", "resp", "inline", "pge", "pgq"])
        if proto == "pgq" and b"\0" in pat: proto = "pge"
        how = how or self.r.choice(["keys", "keys", "scan"])
        if how == "scan" and proto in ("pgq", "pge") and len(self.keys) > 90: proto = "resp"      # an empty page has no cursor there
        if want is None:
            rx = compiled(pat)
            if rx is None:
                self.ask(proto, how, pat); return
            want = [k for k in self.keys if rx.fullmatch(k)]
        got = self.ask(proto, how, pat)
        self.pats += 1; self.pairs += len(self.keys); self.hits += len(want)
        if sorted(got) != want:
            miss = sorted(set(want) - set(got))[:3]; extra = sorted(set(got) - set(want))[:3]
            dup = sorted(k for k in set(got) if got.count(k) > 1)[:3] if len(got) < 3000 else []
            bad("glob:" + ("missing" if miss else "extra" if extra else "twice"),
                f"{how} with pattern {pat[:200]!r} over {proto}: not returned {miss!r}, wrongly returned {extra!r}, returned twice {dup!r}"[:900], argv=self.srv.argv, pattern=repr(pat[:2000]))

ALPHAS = [(b"ab*?\\[", 4), (b"a*?\\", 5), (b"aA*b", 5), (b"*\\", 8), (b"\xff\0*?\\", 4), (b"a?*", 6), (b"a]-^[*", 4), (b"\n\r*?", 5), (b"%_.*$", 4)]

def exhaust(g, r, o, n, parts, seconds):
    """All keys and all patterns over a small alphabet up to a length."""
    t0 = time.time()
    for ai in range(len(ALPHAS)):
        al, ln = ALPHAS[ai]
        if THOROUGH: ln += 1
        keys = [bytes(x) for l in range(ln + 1) for x in itertools.product(al, repeat=l)]
        if len(keys) > 6000: keys = [k for k in keys if len(k) < ln] + r.sample([k for k in keys if len(k) == ln], 3000)
        g.fill(keys)
        mine = keys[(n + ai) % parts::parts]
        r.shuffle(mine)
        for i, p in enumerate(mine):
            if time.time() - t0 > seconds * (ai + 1) / len(ALPHAS):
                o["cut"] += len(mine) - i
                break
            g.check(p, how="keys" if r.random() < .95 else "scan")
        else: o["kinds"].add(("exhaustive part", al, ln))

def rand_key(r, pool):
    w = r.random()
    if w < .25: return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 16, 64, 130, 300])))
    if w < .5: return bytes(r.choice(b"ab") for _ in range(r.randrange(60)))
    if w < .7: return b":".join(r.choice([b"user", b"session", b"Usr", b"x", b"", b"%d" % r.randrange(1000), b"a*b", b"q?", b"\\n", b"[0-9]", b"\xc3\xa9"]) for _ in range(r.randrange(1, 5)))
    if w < .85 and pool:
        k = bytearray(r.choice(pool))
        for _ in range(r.randrange(1, 4)):
            if k: k[r.randrange(len(k))] ^= r.choice([1, 32, 255])
        return bytes(k)
    return r.choice(b"az09_*?\\").to_bytes(1, "little") * r.choice([1, 2, 10, 127, 128, 129, 1000])

def rand_pat(r, keys):
    k = r.choice(keys)
    o = bytearray()
    i = 0
    mut = r.choice([.05, .2, .5])
    while i < len(k):
        w = r.random()
        if w < mut * .4: o += b"*"; i += r.choice([0, 0, 1, 2, 10, len(k)])
        elif w < mut * .7: o += b"?"; i += 1
        elif w < mut * .75: o.append(r.randrange(256)); i += 1
        elif w < mut * .78: i += 1
        else:
            c = k[i]
            if c in b"*?\\" and r.random() < .9 or r.random() < .1: o.append(92)
            o.append(c); i += 1
    if r.random() < .2: o += b"*" * r.randrange(1, 4)
    if r.random() < .1: o = bytearray(b"*") + o
    return bytes(o)

def randoms(g, r, o, seconds):
    t0 = time.time()
    while time.time() - t0 < seconds:
        pool = []
        for _ in range(r.choice([40, 90, 600])): pool.append(rand_key(r, pool))
        g.fill(pool)
        for _ in range(60):
            p = rand_pat(r, g.keys) if r.random() < .9 else rand_key(r, [])
            if p.count(b"*") > 1:
                if tokens(p) is None: continue
                g.check(p, want=[k for k in g.keys if slow(p, k)])
            else: g.check(p)
        o["kinds"].add(("random", len(pool)))

def hard(g, r, o):
    """Patterns on which naive matchers explode or recurse deeply; the answer and the time are checked."""
    n = 2000
    keys = [b"a" * n, b"a" * (n - 1) + b"b", b"ab" * (n // 2), b"a" * 40, b"b" + b"a" * n, b"\xff" * n, b"a" * 300 + b"c" * 300]
    big = [b"a" * 100000, b"a" * 99999 + b"z"]
    pats = []
    for st in (3, 8, 20, 45, 200):
        pats += [b"*a" * st + b"b", b"*a" * st, b"a*" * st + b"b", b"*a?" * st + b"c", b"*aa*a" * st + b"*b", b"**a" * st + b"d*", b"*\\a" * st + b"\\b", b"*?" * st + b"b", b"?*" * st + b"\xff\xfe"]
    r.shuffle(pats)
    g.fill(keys)
    def timed(p, want, what, **kw):
        for attempt in range(3):
            c0, t0 = g.srv.cpu(), time.time()
            g.conn("resp").s.settimeout(60)
            try: g.check(p, proto="resp", want=want, **kw)
            except Timeout:
                g.srv.check()
                bad("glob:time", f"{what}: no answer within 60 s ({g.srv.cpu() - c0:.1f} s of processor time)", argv=g.srv.argv)
            used = g.srv.cpu() - c0
            o["maxcpu"] = max(o["maxcpu"], int(used * 1000))
            if used < 8: return
        bad("glob:time", f"{what}: {used:.1f} s of processor time, three times", argv=g.srv.argv)
    for p in pats[:tier(12, 45)]:
        timed(p, [k for k in g.keys if slow(p, k)], f"pattern of {len(p)} bytes {p[:20]!r}.. over {len(g.keys)} keys of at most {n} bytes", how=r.choice(["keys", "scan"]))
        o["kinds"].add(("hard", p[:6], len(p)))
    g.fill(keys + big)
    for p in [b"*" * 200000, b"?" * 100000, b"a" * 100000, b"\\a" * 100000, b"*" * 1000 + b"z", b"*" + b"a" * 50 + b"z", b"?" * 99999 + b"*", b"?" * 100001 + b"*", b"*" + b"?" * 100000, b"a*" + b"z"]:
        timed(p, [k for k in g.keys if slow(p, k)], f"pattern of {len(p)} bytes {p[:10]!r}.. over keys of up to 100000 bytes", how="keys")
        o["kinds"].add(("long", p[:3], len(p)))

def glob_job(n, seconds):
    r = rng("glob", n)
    o = {"pairs": 0, "hits": 0, "pats": 0, "pages": 0, "cut": 0, "maxcpu": 0, "kinds": set()}
    t0 = time.time()
    a, kw = rconf(r)
    a += ["--sixpack", "yes" if n % 2 else "no"] if "--sixpack" not in a else []
    with Server(a, **kw) as srv:
        g = Globs(srv, r)
        if n in (3, 7): hard(g, r, o)
        exhaust(g, r, o, n, 8, seconds * .7 - (time.time() - t0))
        randoms(g, r, o, max(2, seconds - (time.time() - t0)))
        srv.check()
    for k in ("pairs", "hits", "pats", "pages"): o[k] = getattr(g, k)
    return o
