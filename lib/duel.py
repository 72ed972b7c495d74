"""Duels: clients on different threads send the same commands for the same keys at the same time, while their
threads are stopped at arbitrary instructions. Of each key's contestants exactly the number that some
order of the commands allows may succeed, and the replies of a key must chain."""
from session import *
from srvparts import pmap

def _resp(*a):
    return b"*%d\r\n" % len(a) + b"".join(b"$%d\r\n%s\r\n" % (len(x), x) for x in a)

class Duel:
    def __init__(self, srv, r, o):
        self.srv, self.r, self.o = srv, r, o
        self.ctl = Resp(srv.connect())
        self.cs = {}
    def conn(self, kind, i):
        if (kind, i) not in self.cs:
            self.cs[kind, i] = (Mc if kind == "mc" else Resp)(self.srv.connect())
        return self.cs[kind, i]
    def setup(self, cmds):
        self.ctl.send(b"".join(_resp(*c) for c in cmds))
        return [self.ctl.read(resp) for _ in cmds]
    def round(self, plans):
        """plans: per contestant (protocol, list of encoded commands). Returns the replies."""
        cs = [self.conn(p, i) for i, (p, _) in enumerate(plans)]
        data = [b"".join(l) for _, l in plans]
        order = list(range(len(cs))); self.r.shuffle(order)
        if self.r.random() < .5:
            # slices side by side
            k = self.r.choice([500, 3000])
            for a in range(0, max(map(len, data)), k):
                for i in order: cs[i].send(data[i][a:a + k])
        else:
            for i in order: cs[i].send(data[i])
        out = []
        for (p, l), c in zip(plans, cs):
            out.append([c.read(memcache if p == "mc" else resp) for _ in l])
        self.o["ops"] += sum(len(l) for _, l in plans)
        return out
    def fail(self, kind, k, what, reps, i=None):
        raise Violation("duel:" + kind, f"{what} (key {k!r}); replies of the contestants: {reps!r:.600}", {"argv": self.srv.argv})

def _ok(rep):
    """Did this command succeed? Understands RESP and memcache replies."""
    t, v = rep[0], rep[1] if len(rep) > 1 else None
    if t == "+": return v in (b"OK", "OK")
    if t == ":": return v > 0
    if t == "$": return False
    if t == "null": return False
    if t == "line":
        if v in (b"STORED", b"DELETED"): return True
        if v in (b"NOT_STORED", b"EXISTS", b"NOT_FOUND"): return False
    raise Violation("duel:reply", f"unexpected reply {rep!r:.200}")

def duel_job(n, seconds, kinds, san="asan"):
    r = rng("duel", n)
    t0 = time.time()
    o = {"rounds": 0, "ops": 0, "keys": 0, "mixed": 0, "preempts": 0, "shapes": set()}
    th = r.choice([2, 4, 4, 8])
    with Server(["--cas", "yes"], virtual=True, threads=th, shards=r.choice([1, 16, 1024]), san=san) as srv:
        srv.ctl.set(clockmode=1, boot=BOOT0, real=REAL0)
        d = Duel(srv, r, o)
        t0 = time.time()
        while time.time() - t0 < seconds:
            srv.ctl.set(preempt=r.choice([0, 20, 50, 50, 150, 400]), jitter=r.choice([0, 0, 20]))
            kind = r.choice(kinds)
            M = r.choice([2, 2, 3, 4, 8])
            N = r.choice([50, 300, 1000])
            ks = [b"%s%d" % (r.choice([b"k", b"K", b"dir/"]), i) for i in range(N)]
            d.setup([(b"FLUSHALL",)])
            try:
                globals()["_" + kind](d, r, ks, M)
            except (Closed, Timeout, Bad) as ex:
                srv.check()
                raise Violation("duel:reply", f"{kind}: {type(ex).__name__}: {ex}", {"argv": srv.argv})
            o["rounds"] += 1; o["keys"] += N
            srv.ctl.set(preempt=0)
        o["preempts"] = srv.ctl.preempts
        srv.check()
    return o

def _who(d, kind, reps):
    """Which contestants won anything: shows that the streams really met."""
    w = [sum(map(_ok, x)) for x in reps]
    if sum(1 for x in w if x) > 1: d.o["mixed"] += 1
    d.o["shapes"].add((kind, len(w), tuple(min(9, x.bit_length()) for x in w)))

def _val(i, k): return b"by-%d-%s" % (i, k)

def _get(d, ks):
    """The values of the keys now."""
    return [x[1] if x[0] == "$" else None for x in d.setup([(b"GET", k) for k in ks])]

def _rm(d, r, ks, M):
    """Everybody deletes: one succeeds."""
    d.setup([(b"SET", k, b"x") for k in ks])
    g = r.choice([1, 1, 3])
    plans = []
    for i in range(M):
        if g == 1 and r.random() < .3: plans.append(("mc", [b"delete %s\r\n" % k for k in ks]))
        else: plans.append(("resp", [_resp(b"DEL", *ks[a:a + g]) for a in range(0, len(ks), g)]))
    reps = d.round(plans)
    _who(d, "rm", reps)
    for a in range(0, len(ks), g):
        got = [x[a // g] for x in reps]
        c = sum((x[1] if x[0] == ":" else _ok(x)) for x in got)
        if c != len(ks[a:a + g]): d.fail("del", ks[a], f"{c} deletes of {len(ks[a:a + g])} entries succeeded", got)
    if any(v is not None for v in _get(d, ks)): d.fail("del", b"", "a key survived all deletes", [])

def _nx(d, r, ks, M):
    """Everybody creates: one succeeds and its value stays."""
    plans = []
    for i in range(M):
        if r.random() < .3: plans.append(("mc", [b"add %s 0 0 %d\r\n%s\r\n" % (k, len(_val(i, k)), _val(i, k)) for k in ks]))
        else: plans.append(("resp", [_resp(b"SET", k, _val(i, k), b"NX") for k in ks]))
    reps = d.round(plans)
    _who(d, "nx", reps)
    for j, (k, v) in enumerate(zip(ks, _get(d, ks))):
        w = [i for i in range(M) if _ok(reps[i][j])]
        if len(w) != 1: d.fail("nx", k, f"{len(w)} of {M} creations succeeded", [x[j] for x in reps])
        if v != _val(w[0], k): d.fail("nx", k, f"the value is {v!r:.100}, creator was {w[0]}", [x[j] for x in reps])

def _getset(d, r, ks, M):
    """SET GET: the replies form one chain."""
    had = r.random() < .5
    if had: d.setup([(b"SET", k, b"first") for k in ks])
    reps = d.round([("resp", [_resp(b"SET", k, _val(i, k), b"GET") for k in ks]) for i in range(M)])
    for j, (k, v) in enumerate(zip(ks, _get(d, ks))):
        seen = sorted([x[j][1] if x[j][0] == "$" else b"" for x in reps] + [v or b""])
        want = sorted([_val(i, k) for i in range(M)] + [b"first" if had else b""])
        if seen != want: d.fail("setget", k, f"previous values and the final one are {seen!r:.300}, expected each of {want!r:.300} once", [x[j] for x in reps])
    d.o["shapes"].add(("getset", M, had)); d.o["mixed"] += 1

def _incr(d, r, ks, M):
    """Increments: every number once, with entries that did not exist, did, or had expired."""
    base = r.choice([None, 5, 2 ** 40])
    if base: d.setup([(b"SET", k, b"%d" % base) for k in ks])
    reps = d.round([("resp", [_resp(*r.choice([(b"INCR", k), (b"INCRBY", k, b"1"), (b"UINCRBY", k, b"1")])) for k in ks]) if r.random() < .8 or not base
                    else ("mc", [b"incr %s 1\r\n" % k for k in ks]) for i in range(M)])
    for j, k in enumerate(ks):
        got = sorted(int(x[j][1]) for x in reps)
        if got != [(base or 0) + i + 1 for i in range(M)]: d.fail("incr", k, f"{M} increments from {base} answered {got}", [x[j] for x in reps])
    d.o["shapes"].add(("incr", M, base)); d.o["mixed"] += 1

def _append(d, r, ks, M):
    """Appends: all fragments once, each reply is the length right after it."""
    pre = [r.random() < .3 for _ in range(M)]
    had = r.random() < .5
    if had: d.setup([(b"SET", k, b"|") for k in ks])
    frag = [b"<" + bytes([65 + i]) * (i + 1) + b">" for i in range(M)]
    reps = d.round([("resp", [_resp(b"PREPEND" if pre[i] else b"APPEND", k, frag[i]) for k in ks]) for i in range(M)])
    for j, (k, v) in enumerate(zip(ks, _get(d, ks))):
        tot, left = (1 if had else 0), set(range(M))
        for ln, i in sorted((x[j][1], i) for i, x in enumerate(reps)):
            tot += len(frag[i])
            if ln != tot: d.fail("append", k, f"lengths reported do not add up to one order; the value is {v!r:.200}", [x[j] for x in reps])
        if len(v or b"") != tot or any(v.count(f) != 1 for f in frag): d.fail("append", k, f"the value is {v!r:.200}, fragments {frag!r}", [x[j] for x in reps])
    d.o["shapes"].add(("append", M, had)); d.o["mixed"] += 1

def _cas(d, r, ks, M):
    """Everybody stores against the same version: one succeeds."""
    d.setup([(b"SET", k, b"x") for k in ks])
    mc = d.conn("mc", 99)
    mc.send(b"".join(b"gets %s\r\n" % k for k in ks))
    vers = []
    for k in ks:
        x = mc.read(memcache)
        vers.append(x[1][0][3])
    plans = []
    for i in range(M):
        if r.random() < .5: plans.append(("mc", [b"cas %s 0 0 %d %d\r\n%s\r\n" % (k, len(_val(i, k)), c, _val(i, k)) for k, c in zip(ks, vers)]))
        else: plans.append(("resp", [_resp(b"SET", k, _val(i, k), b"CAS", b"%d" % c) for k, c in zip(ks, vers)]))
    reps = d.round(plans)
    _who(d, "cas", reps)
    for j, (k, v) in enumerate(zip(ks, _get(d, ks))):
        w = [i for i in range(M) if _ok(reps[i][j])]
        if len(w) != 1: d.fail("cas", k, f"{len(w)} of {M} stores against version {vers[j]} succeeded", [x[j] for x in reps])
        if v != _val(w[0], k): d.fail("cas", k, f"the value is {v!r:.100}, the winner was {w[0]}", [x[j] for x in reps])
    mc.send(b"".join(b"gets %s\r\n" % k for k in ks))
    for k, c in zip(ks, vers):
        if mc.read(memcache)[1][0][3] == c: d.fail("cas", k, "the version did not change", [])

def _gone(d, r, ks, M):
    """One deletes, the others may only change what exists: nothing is left."""
    d.setup([(b"SET", k, b"10") for k in ks])
    ch = [r.choice([lambda k, i: _resp(b"SET", k, _val(i, k), b"XX"), lambda k, i: _resp(b"EXPIRE", k, b"1000"), lambda k, i: _resp(b"SET", k, _val(i, k), b"XX", b"KEEPTTL")]) for _ in range(M)]
    mcs = [r.choice([b"replace %s 0 0 1\r\nx\r\n", b"touch %s 1000\r\n"]) if r.random() < .3 else None for _ in range(M)]
    plans = [("resp", [_resp(b"DEL", k) for k in ks])]
    for i in range(1, M):
        plans.append(("mc", [mcs[i] % k for k in ks]) if mcs[i] else ("resp", [ch[i](k, i) for k in ks]))
    reps = d.round(plans)
    lost = 0
    for j, (k, v) in enumerate(zip(ks, _get(d, ks))):
        if not _ok(reps[0][j]): d.fail("gone", k, "the only delete found nothing", [x[j] for x in reps])
        if v is not None: d.fail("gone", k, f"the value {v!r:.100} is there although only changes of existing entries ran beside the delete", [x[j] for x in reps])
        oks = [x[j] for x in reps[1:]]
        lost += sum(1 for x in oks if x[0] in ("+", ":") and x[1] in (b"OK", "OK", 1) or x == ("line", b"STORED") or x == ("line", b"TOUCHED"))
    d.o["shapes"].add(("gone", M, lost.bit_length()))
    if 0 < lost < len(ks) * (M - 1): d.o["mixed"] += 1

def _reborn(d, r, ks, M):
    """One deletes while the others create: at most one creation succeeds, and only after the delete."""
    d.setup([(b"SET", k, b"old") for k in ks])
    reps = d.round([("resp", [_resp(b"DEL", k) for k in ks])] + [("resp", [_resp(b"SET", k, _val(i, k), b"NX") for k in ks]) for i in range(1, M)])
    _who(d, "reborn", reps)
    for j, (k, v) in enumerate(zip(ks, _get(d, ks))):
        if not _ok(reps[0][j]): d.fail("reborn", k, "the only delete found nothing", [x[j] for x in reps])
        w = [i for i in range(1, M) if _ok(reps[i][j])]
        if len(w) > 1: d.fail("reborn", k, f"{len(w)} creations succeeded", [x[j] for x in reps])
        if v != (_val(w[0], k) if w else None): d.fail("reborn", k, f"the value is {v!r:.100}, creators {w}", [x[j] for x in reps])

def _recount(d, r, ks, M):
    """One deletes while the others count: the counting starts again after the delete."""
    base = r.choice([100, 10 ** 15])
    d.setup([(b"SET", k, b"%d" % base) for k in ks])
    reps = d.round([("resp", [_resp(b"DEL", k) for k in ks])] + [("resp", [_resp(b"INCR", k) for k in ks]) for i in range(1, M)])
    for j, (k, v) in enumerate(zip(ks, _get(d, ks))):
        if not _ok(reps[0][j]): d.fail("recount", k, "the only delete found nothing", [x[j] for x in reps])
        got = sorted(x[j][1] for x in reps[1:])
        b = sum(1 for x in got if x < base)
        want = list(range(1, b + 1)) + [base + 1 + i for i in range(M - 1 - b)]
        if got != want or (int(v) if v is not None else 0) != b: d.fail("recount", k, f"increments answered {got}, the value is {v!r}", [x[j] for x in reps])
        d.o["shapes"].add(("recount", M, b))

def _swap(d, r, ks, M):
    """Deletes and SET GET: every value that was seen stored is either returned once, deleted or still there."""
    reps = d.round([("resp", [_resp(b"SET", k, _val(i, k), b"GET") for k in ks]) for i in range(M - 1)] + [("resp", [_resp(b"DEL", k) for k in ks])])
    for j, (k, v) in enumerate(zip(ks, _get(d, ks))):
        olds = [x[j][1] for x in reps[:-1] if x[j][0] == "$"]
        dl = _ok(reps[-1][j])
        left = M - 1 - len(olds) - (v is not None)
        if len(set(olds)) != len(olds) or v in olds or left != dl:
            d.fail("swap", k, f"{M - 1} values stored, {len(olds)} returned as previous ones, final value {v!r:.60}, deleted {dl}", [x[j] for x in reps])
    d.o["shapes"].add(("swap", M))

def run_duels(ck, kinds, seconds, jobs=4, sans=("asan",)):
    for o in pmap(duel_job, [(i, seconds, kinds, sans[i % len(sans)]) for i in range(jobs)], workers=min(4, NCPU), ck=ck):
        ck.case(n=o["rounds"])
        for x in o["shapes"]: ck.distinct.add(("duel",) + x)
        for k in ("ops", "keys", "mixed", "preempts"): ck.count("duel_" + {"mixed": "rounds_with_several_winners"}.get(k, k), o[k])
