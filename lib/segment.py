"""The same request stream under many segmentations must give the same reply bytes (C15)."""
import fcntl, struct, select, socket, itertools
from session import *
from kv import *
from fuzz import base_stream, mutate, tame, mcspecial, pgspecial, httpspecial, special

SIOCOUTQ = 0x5411
def _drained(s, timeout=8):
    """Waits until the peer has taken everything that was sent (unix sockets)."""
    t0 = time.time()
    b = bytearray(4)
    k = 0
    while True:
        fcntl.ioctl(s.fileno(), SIOCOUTQ, b)
        if struct.unpack("i", b)[0] == 0: return True
        k += 1
        if k > 30: time.sleep(.0002)
        if time.time() - t0 > timeout: return False

class Feeder:
    def __init__(self, srv, o): self.srv, self.o = srv, o
    def run(self, segs, slow=False, half=True, readn=1 << 18):
        """Sends the segments, each only after the previous one was read; returns the reply bytes up to the end of the stream."""
        s = self.srv.connect(timeout=40)
        out = bytearray()
        try:
            for i, g in enumerate(segs):
                if i and not _drained(s, .3):
                    # the server waits for its replies to be read
                    t0 = time.time()
                    while not _drained(s, .02):
                        x = self._some(s)
                        out += x
                        if x: t0 = time.time()
                        if time.time() - t0 > 40: break
                    else: t0 = None
                    if t0: break
                if not self._send(s, g, out): break
            self.o["segs"] += len(segs)
            try: s.shutdown(socket.SHUT_WR)
            except OSError: pass
            while True:
                try: x = s.recv(readn)
                except socket.timeout:
                    self.srv.check()
                    raise Violation("seg:stuck", f"the stream does not end 40 s after its last byte, {len(out)} reply bytes so far")
                except OSError: break
                if not x: break
                out += x
        finally:
            s.close()
        return bytes(out)
    def _some(self, s):
        b = bytearray()
        s.setblocking(False)
        try:
            while True:
                x = s.recv(1 << 18)
                if not x: break
                b += x
        except OSError: pass
        s.settimeout(40)
        return b
    def _send(self, s, g, out):
        # sends without deadlocking on a server that waits for its replies to be read
        s.setblocking(False)
        t0 = time.time()
        try:
            p = 0
            while p < len(g):
                try:
                    p += s.send(g[p:p + (1 << 17)]); t0 = time.time()
                except BlockingIOError:
                    r, w, _ = select.select([s], [s], [], 1)
                    if r and not w:
                        x = s.recv(4096)
                        if not x: return False
                        out += x; t0 = time.time()
                    if time.time() - t0 > 40:
                        self.srv.check()
                        raise Violation("seg:stuck", f"the server stopped reading and replying for 40 s after {p} bytes")
        except OSError:
            return False
        finally:
            s.settimeout(40)
        return True

def reset(srv, adm, d):
    v = adm.cmd("FLUSHALL")
    if v != ("+", b"OK"): raise HarnessError(f"FLUSHALL: {v}")
    for f in ("a", "b"):
        try: os.unlink(os.path.join(d, f))
        except FileNotFoundError: pass

def bgcmd(r, d):
    f = lambda *a: [y if isinstance(y, bytes) else y.encode() for y in a]
    p = os.path.join(d, r.choice("ab"))
    return r.choice([f("SAVE", "TO", p), f("SAVE", "TO", p, "FAST"), f("LOAD", "FROM", p), f("LOAD", "FROM", p, "FAST"), f("FLUSHALL"), f("FLUSHDB", "SYNC"), f("FLUSH", "FAST"), f("SWEEP"),
                     f("SWEEP", "FAST"), f("KEYS", "*"), f("KEYS", "k*"), f("PURGE"), f("SAVE"), f("LOAD", "FROM", os.path.join(d, "none")), f("FLUSH", "DELAY", "0"), f("DBSIZE"), f("SCAN", "0", "COUNT", "3"),
                     f("DEBUG", "POPULATE", "3", "p", "5")])

def make_requests(r, gen, model, proto, d, n, err):
    """A list of complete requests of one connection."""
    out = []
    if proto in ("pgq", "pge"):
        if r.random() < .15: out.append(struct.pack(">ii", 8, 80877103))
        out.append(pg_startup(user="u", database="d", **({"options": "-c x=y"} if r.random() < .3 else {})))
    elif proto == "inline":
        out.append(r.choice([b"PING\r\n", b"ECHO x\r\n", b"SET k1 v1\r\n", b"DBSIZE\r\n", b"GET k1\r\n"]))
    while len(out) < n:
        x = r.random()
        if x < .16:
            w = bgcmd(r, d)
            if proto == "resp": out.append(enc_resp(w))
            elif proto == "inline": out.append(enc_inline(w, r))
            elif proto == "pgq": out.append(pg_q(b" ".join(pg_lit(y) if i else y for i, y in enumerate(w))))
            elif proto == "pge":
                s = w[0] + b"".join(b" $%d" % (i + 1) for i in range(len(w) - 1))
                out.append(pg_parse(s) + pg_bind(w[1:]) + pg_exec() + PG_SYNC)
            elif proto == "mc": out.append(r.choice([b"flush_all\r\n", b"flush_all noreply\r\n", b"version\r\n", b"flush_all 0\r\n", b"mn\r\n"]))
            continue
        if x < .16 + err:
            if proto == "mc": q = mcspecial(r)
            elif proto[:2] == "pg": q = pgspecial(r)
            else: q = enc_resp(special(r)) if proto == "resp" else enc_inline(special(r), r)
            if stable(q): out.append(q)
            continue
        op = gen.op(model)
        if can(proto, op): out.append(render(proto, op, r))
    return out

_UNST = re.compile(rb"(?i)stats|monitor|async|delay|populate|debug|/tmp|save|load")
def stable(q):
    """Requests whose reply depends on time, on work in the background or on files are left out."""
    return not _UNST.search(q) and tame(q)

def show(x, n=160):
    return repr(x) if len(x) <= n else repr(x[:n]) + f"...[{len(x)}]"

def compare(o, srv, proto, reqs, ref, got, segs, what):
    o["cmp"] += 1
    if got == ref: return
    i = next((i for i, (a, b) in enumerate(zip(ref, got)) if a != b), min(len(ref), len(got)))
    raise Violation(f"seg:{proto}", f"{proto}: the replies depend on the segmentation ({what}): {len(ref)} bytes as one segment, {len(got)} bytes as {len(segs)} segments of sizes "
                    f"{[len(x) for x in segs][:12]}; first difference at {i}: {show(ref[max(0, i - 30):i + 60])} against {show(got[max(0, i - 30):i + 60])}; requests {[show(q, 90) for q in reqs][:14]}",
                    {"argv": srv.argv, "requests": [q.hex() for q in reqs][:40], "segments": [len(x) for x in segs]})

def cuts(stream, at):
    at = sorted(set(a for a in at if 0 < a < len(stream)))
    return [stream[a:b] for a, b in zip([0] + at, at + [len(stream)])]

def seg_job(n, seconds, tag="c15"):
    r = rng(tag, n)
    t0 = time.time()
    o = {"streams": 0, "cmp": 0, "segs": 0, "bytes": 0, "full": 0, "kinds": set(), "multi": 0, "big": 0, "faults": 0, "bigbg": 0, "samples": []}
    args = ["--cas", "no", "--autosweep", "no", "--seed", str(1 + n)] + r.choice([[], ["--queuesize", "1"], ["--queuesize", "4"]])
    with Server(args, virtual=True, threads=r.choice([1, 2, 4]), shards=r.choice([1, 4, 64])) as srv:
        srv.allow_escape = True      # SAVE TO may name any path; the shim refuses the ones outside
        adm = Resp(srv.connect())
        F = Feeder(srv, o)
        model = Model(srv.ctl.boot, srv.ctl.real, False)
        def ref_of(proto, reqs):
            reset(srv, adm, srv.dir)
            return F.run([b"".join(reqs)])
        k = 0
        while time.time() - t0 < seconds:
            k += 1
            mode = (k + n) % 8
            proto = PROTOS[(k // 2 + n) % 6]
            gen = Gen(r, nkeys=6, big=mode in (5, 6), maxlen=70000 if mode == 5 else 17000 if mode == 6 else 40, cas=False)
            if proto == "http":
                while True:
                    if r.random() < .6: q = httpspecial(r)
                    else:
                        op = gen.op(model)
                        if not can("http", op): continue
                        q = render("http", op, r)
                    if stable(q): break
                if mode in (5, 6): q = http_put(b"k1", r.randbytes(r.choice([16000, 16383, 16384, 16385, 32766, 50000])), r.choice([b"", b"?ttl=5", b"?flags=3"]))
                reqs = [q] + ([q[:r.randrange(len(q))]] if r.random() < .1 else [])
            else:
                reqs = make_requests(r, gen, model, proto, srv.dir, r.choice([2, 4, 8]) if mode < 4 else r.choice([10, 30]), .15 if mode % 2 else 0)
                if mode == 6:
                    # put a boundary of the server's reads at interesting places of a request
                    pad = r.choice([16383, 32766, 16384, 8191]) - sum(map(len, reqs[:-1])) - r.randrange(200)
                    if pad > 60 and proto in ("resp", "inline", "mc"):
                        v = b"p" * (pad - 40)
                        f = enc_resp([b"ECHO", v]) if proto == "resp" else b"ECHO " + v + b"\r\n" if proto == "inline" else b"set kp 0 0 %d\r\n%s\r\n" % (len(v), v)
                        reqs.insert(len(reqs) - 1, f)
                        if proto == "inline": reqs[0], reqs[1:] = b"PING\r\n", reqs[1:]
            if mode == 7 and proto not in ("http", "mc"):
                # a reply of a background command that is larger than any buffer on its way, and more requests behind it
                m = r.choice([10, 40, 120])
                pre = [render(proto, Op("set", b"L%03d" % i + b"k" * r.choice([1000, 4000]), b"v"), r) for i in range(m)]
                w = [b"KEYS", r.choice([b"*", b"L*", b"*k"])]
                q = enc_resp(w) if proto == "resp" else enc_inline(w, r) if proto == "inline" else pg_q(b"KEYS " + pg_lit(w[1])) if proto == "pgq" else pg_parse(b"KEYS $1") + pg_bind(w[1:]) + pg_exec() + PG_SYNC
                at = 2 if proto[:2] == "pg" else 1
                reqs[at:at] = pre + [q] * r.choice([1, 2])
                o["bigbg"] += 1
            mutated = mode == 3
            if mutated:
                m = mutate(r, reqs)
                if not m or _UNST.search(m) or not tame(m): continue
                reqs = [m]
            stream = b"".join(reqs)
            if len(stream) < 2: continue
            ref = ref_of(proto, reqs)
            o["streams"] += 1; o["bytes"] += len(stream)
            o["kinds"].add((proto, mode, len(stream).bit_length(), len(ref).bit_length()))
            if len(o["samples"]) < 3 and len(stream) < 200: o["samples"].append(f"{proto} {stream!r} -> {ref!r:.200}")
            def go(segs, what, faults=False):
                reset(srv, adm, srv.dir)
                if faults or (len(segs) < 40 and r.random() < .06):
                    # sockets that give and take little at a time, as with a slow peer
                    f = dict(sockshort=r.choice([0, 1, 7, 300, 9000]), sockagain=r.choice([0, 2, 4, 20]), readshort=r.choice([0, 0, 5, 1000]) if len(stream) < 3000 else r.choice([0, 1000]))
                    if len(ref) > 20000 and 0 < f["sockshort"] < 300: f["sockshort"] = 300
                    e0 = srv.ctl.sockevents
                    srv.ctl.set(**f)
                    try: got = F.run(segs)
                    finally: srv.ctl.set(sockshort=0, sockagain=0, readshort=0)
                    o["faults"] += srv.ctl.sockevents - e0
                    compare(o, srv, proto, reqs, ref, got, segs, f"{what}, socket calls cut short: {f}")
                    return
                compare(o, srv, proto, reqs, ref, F.run(segs), segs, what)
            go([stream], "again as one segment")
            go(list(reqs), "one segment per request")
            go([stream], "as one segment", True)
            if k % 2: go(list(reqs), "one segment per request", True)
            bounds = list(itertools.accumulate(len(q) for q in reqs))
            if len(stream) < (700 if THOROUGH else 350) and mode != 5:
                for a in range(1, len(stream)):
                    go(cuts(stream, [a]), f"cut at {a}")
                go(cuts(stream, range(1, len(stream))), "byte by byte")
                o["full"] += 1
            else:
                o["big"] += 1
                near = [b + x for b in bounds for x in (-3, -2, -1, 0, 1, 2, 3)] + [16383 * i + x for i in range(1, 6) for x in (-2, -1, 0, 1, 2)]
                for a in r.sample(near, min(len(near), 12)): go(cuts(stream, [a]), f"cut at {a}")
                for _ in range(6): go(cuts(stream, [r.randrange(len(stream))]), "one cut")
                if len(stream) < 4000: go(cuts(stream, range(1, len(stream))), "byte by byte")
                for w in r.sample([7, 100, 1000, 4096, 16382, 16383, 16384, 20000], 2):
                    if len(stream) // w < 3000: go(cuts(stream, range(w, len(stream), w)), f"every {w} bytes")
            for _ in range(4):
                m = r.choice([2, 3, 5, 12])
                go(cuts(stream, [r.randrange(len(stream)) for _ in range(m)]), "random cuts")
            if len(reqs) > 1:
                go(cuts(stream, [b + r.choice([-1, 1, 2, 3]) for b in bounds[:-1]]), "cuts beside the request boundaries")
                i = r.randrange(len(reqs)); go(cuts(stream, [bounds[i]]), "pipelined prefix")
            if mode in (4, 7) and not mutated and proto != "http":
                multi(r, srv, adm, F, o, d=srv.dir, n=n)
            srv.check_log()
        srv.check()
    return o

def multi(r, srv, adm, F, o, d, n):
    """Several connections with disjoint keys, their streams cut and interleaved: each gets what it gets alone."""
    model = Model(srv.ctl.boot, srv.ctl.real, False)
    todo = []
    for i in range(r.choice([2, 4, 8])):
        proto = r.choice(["resp", "inline", "mc", "pgq", "pge"])
        gen = Gen(r, nkeys=4, big=False, maxlen=60, cas=False, whole=False)
        gen.keys = [b"c%dk%d" % (i, j) for j in range(4)]
        gen.newkey = lambda i=i: b"c%dk%d" % (i, r.randrange(9))
        reqs = make_requests(r, gen, model, proto, d, r.choice([5, 20]), 0)
        if proto == "inline": reqs[0] = b"PING\r\n"
        reqs = [q for q in reqs if not re.search(rb"(?i)flush|keys|dbsize|scan|sweep|purge|save|load|debug", q)]
        todo.append((proto, reqs))
    refs = []
    reset(srv, adm, d)
    for proto, reqs in todo: refs.append(F.run([b"".join(reqs)]))
    reset(srv, adm, d)
    socks = []
    for proto, reqs in todo:
        s = b"".join(reqs)
        segs = cuts(s, [r.randrange(1, len(s)) for _ in range(r.choice([1, 5, 20, 60]))])
        socks.append([srv.connect(timeout=40), list(segs), bytearray(), segs, proto, reqs])
    live_ = list(socks)
    while live_:
        x = r.choice(live_)
        if not x[1]:
            x[0].shutdown(socket.SHUT_WR); live_.remove(x); continue
        try: x[0].sendall(x[1].pop(0))
        except OSError: live_.remove(x); continue
        if r.random() < .5: _drained(x[0])
    for x, ref in zip(socks, refs):
        try:
            while True:
                y = x[0].recv(1 << 18)
                if not y: break
                x[2] += y
        except socket.timeout:
            srv.check()
            raise Violation("seg:stuck", "a stream next to others does not end")
        except OSError: pass
        x[0].close()
        compare(o, srv, x[4], x[5], ref, bytes(x[2]), x[3], f"next to {len(socks) - 1} other connections")
    o["multi"] += 1
