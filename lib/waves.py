"""Concurrent clients in waves, judged by exact search for a linear order per key.

In a wave every client pipelines a sequence of single-key operations; all sequences overlap. For each key
the replies must be explainable by an interleaving of the clients' sequences that starts in one of the
states the previous waves left possible. The set of states that any explanation can end in is carried over."""
from session import *
import threading

class Budget(Exception):
    pass

def explain(seqs, states, env, limit=200000):
    """seqs: per client list of (op, proto, reply). states: set of (E or None, frozenset seen). Returns final states."""
    n = [len(s) for s in seqs]
    goal = tuple(n)
    start = tuple(0 for _ in seqs)
    seen = set()
    out = set()
    best = [0]
    stack = [(start, st) for st in states]
    steps = 0
    while stack:
        node = stack.pop()
        if node in seen:
            continue
        seen.add(node)
        steps += 1
        if steps > limit:
            raise Budget()
        pos, (e, cs) = node
        best[0] = max(best[0], sum(pos))
        if pos == goal:
            out.add((e, cs))
            continue
        for i, p in enumerate(pos):
            if p >= n[i]:
                continue
            op, proto, rep = seqs[i][p]
            nx = transition(e, cs, op, proto, rep, env)
            if nx is not None:
                stack.append((pos[:i] + (p + 1,) + pos[i + 1:], nx))
    return out, steps, best[0]

def transition(e, cs, op, proto, rep, env):
    if rep is LOST:
        # the outcome is unknown: handled by the caller giving both possibilities
        raise HarnessError("lost reply")
    if op.p.get("cas") is not None and live(e, env.now) and e.cas is None:
        # version never shown so far: the reply tells whether it is the named one
        if op.p["cas"] in cs:
            e2 = e._replace(cas=-1)
        else:
            r1 = _try(e._replace(cas=op.p["cas"]), cs | {op.p["cas"]}, op, proto, rep, env)
            if r1 is not None:
                return r1
            e2 = e._replace(cas=-1)
            r2 = _try(e2, cs, op, proto, rep, env)
            if r2 is None:
                return None
            return (e if r2[0] is not None and r2[0].cas == -1 else r2[0]), r2[1]
        r2 = _try(e2, cs, op, proto, rep, env)
        if r2 is None:
            return None
        return (e if r2[0] is not None and r2[0].cas == -1 else r2[0]), r2[1]
    return _try(e, cs, op, proto, rep, env)

def _try(e, cs, op, proto, rep, env):
    ne, res = step(e, op, env, proto)
    cat, text, learned = judge(proto, op, res, rep)
    if cat:
        return None
    for c in learned:
        if c is not None and ne is not None and env.cas:
            if ne.cas is None:
                if c in cs:
                    return None
                ne = ne._replace(cas=c)
                cs = cs | {c}
            elif ne.cas != c:
                return None
    return ne, cs
LOST = object()

def wave_job(tag, n, args, seconds, letters, threads, clients, opkinds, keys=(3, 40), per=(1, 6), jitter=(0, 0, 3, 10, 50), san="asan", ttl=True, shards=64,
             protos=("resp", "mc", "pgq", "pge", "resp", "resp")):
    r = rng("wave", tag, n)
    t0 = time.time()
    o = {"waves": 0, "ops": 0, "keyhist": 0, "overlap": 0, "steps": 0, "undecided": 0, "kinds": set(), "multi": 0, "jitters": 0, "preempts": 0}
    cas = "--cas" in args
    with Server(args, virtual=True, threads=threads, shards=shards, san=san) as srv:
        while time.time() - t0 < seconds:
            # one history
            srv.ctl.set(jitter=r.choice(jitter), preempt=r.choice([0, 0, 50, 200]))
            nk = r.choice(range(*keys))
            ks = [b"%s%d" % (r.choice([b"k", b"a", b"long-key-name-for-hashing-"]), i) for i in range(nk)]
            K = r.choice(clients)
            conns = []
            for i in range(K):
                proto = r.choice(protos)
                c = {"mc": Mc, "pgq": Pg, "pge": Pg}.get(proto, Resp)(srv.connect())
                if proto in ("pgq", "pge"): c.start()
                conns.append((proto, c))
            ctl = Resp(srv.connect())
            ctl.cmd("FLUSHALL")
            states = {k: {(None, frozenset())} for k in ks}
            known = {k: set() for k in ks}     # CAS values clients have seen
            uniq = 0
            env = Env(srv.ctl.boot, srv.ctl.real, cas)
            for w in range(r.choice([2, 4, 8])):
                m = r.choice([4, 12, 40, 120])
                plan = []
                for i, (proto, c) in enumerate(conns):
                    seq = []
                    while len(seq) < m:
                        k = r.choice(ks)
                        uniq += 1
                        op = gen_conc(r, k, b"%d.%d" % (i, uniq), known[k], opkinds, ttl, env)
                        if op and can(proto, op):
                            seq.append(op)
                    plan.append(seq)
                # cap the number of operations per key so that the search stays small
                cnt = {}
                for seq in plan:
                    seq[:] = [op for op in seq if cnt.setdefault(op.key, 0) < 18 and not cnt.__setitem__(op.key, cnt[op.key] + 1)]
                datas = [b"".join(render(proto, op, r) for op in seq) for (proto, c), seq in zip(conns, plan)]
                order = list(range(K)); r.shuffle(order)
                replies = [[] for _ in conns]
                try:
                    if r.random() < .3:
                        # interleave at a finer grain: send in two parts
                        cut = [r.randrange(len(d) + 1) for d in datas]
                        for i in order: conns[i][1].send(datas[i][:cut[i]])
                        for i in reversed(order): conns[i][1].send(datas[i][cut[i]:])
                    else:
                        for i in order: conns[i][1].send(datas[i])
                    for i in range(K):
                        proto, c = conns[i]
                        for op in plan[i]:
                            replies[i].append(read_reply(c, proto))
                except (Closed, Timeout, Bad) as ex:
                    srv.check()
                    raise Violation("wave:reply", f"{type(ex).__name__}: {ex}", {"argv": srv.argv})
                for k in ks:
                    seqs = []
                    for i in range(K):
                        s = [(op, conns[i][0], rep) for op, rep in zip(plan[i], replies[i]) if op.key == k]
                        if s: seqs.append(s)
                    if not seqs: continue
                    o["keyhist"] += 1
                    if len(seqs) > 1: o["overlap"] += 1
                    try:
                        fin, steps, best = explain(seqs, states[k], env)
                    except Budget:
                        o["undecided"] += 1
                        states[k] = None
                        continue
                    o["steps"] += steps
                    o["kinds"].add(hash(tuple(sorted((tuple((op.name, _rk(rep)) for op, p, rep in s) for s in seqs), key=repr))))
                    if not fin:
                        cat = categorise(seqs)
                        txt = [[f"{p} {_show(op)} -> {str(rep)[:120]}" for op, p, rep in s] for s in seqs]
                        if cat in letters:
                            raise Violation(f"linear:{cat}:" + "+".join(sorted({op.name for s in seqs for op, _, _ in s}))[:60],
                                            f"no order of the operations on {k!r} explains the replies (best {best} of {sum(map(len, seqs))}); start states {list(states[k])[:4]}\n"
                                            + "\n".join(f"client {i}: " + "; ".join(t) for i, t in enumerate(txt)), {"argv": srv.argv, "seqs": txt})
                        states[k] = None
                        continue
                    if len(fin) > 1: o["multi"] += 1
                    states[k] = fin if len(fin) < 60 else None
                    for e, cs in fin: known[k] |= cs
                # forget keys whose state is not known: read them back
                for k in ks:
                    if states[k] is None:
                        ctl.cmd("DEL", k)
                        states[k] = {(None, frozenset(known[k]))}
                o["waves"] += 1
                o["ops"] += sum(len(s) for s in plan)
                if ttl and r.random() < .4:
                    d = r.choice([1, SEC, 2 * SEC, 500 * MS])
                    srv.advance(d); env.now += d; env.real += d
            o["jitters"] = srv.ctl.jitters
            o["preempts"] = srv.ctl.preempts
            for _, c in conns: c.close()
            ctl.close()
            srv.check()
    return o

def _rk(rep):
    if isinstance(rep, PgR): return (rep.tag, len(rep.rows))
    return (rep[0], rep[1] if rep[0] in ("+", ":", "line") else None)
def categorise(seqs):
    names = {op.name for s in seqs for op, _, _ in s}
    if any(op.p.get("cas") is not None for s in seqs for op, _, _ in s) or "gets" in names: return "C"
    if names & {"incr", "decr", "append", "prepend"}: return "R"
    return "L"

def gen_conc(r, k, tag, known, kinds, ttl, env):
    n = r.choice(kinds)
    if n == "set":
        p = {}
        if ttl and r.random() < .15: p["ttl"] = ("ex", r.choice([1, 2, 3]))
        if r.random() < .2: p["cond"] = r.choice(["nx", "xx"])
        if r.random() < .1: p["get"] = True
        if r.random() < .1: p["keepttl"] = True; p.pop("ttl", None)
        if r.random() < .1: p["flags"] = r.randrange(1, 9)
        return Op("set", k, tag if r.random() < .8 else tag * r.choice([10, 60]), p)
    if n == "setn":
        return Op("set", k, b"%d" % r.randrange(1000))
    if n == "cas":
        c = r.choice(sorted(known)) if known and r.random() < .9 else 2 ** 63 + r.randrange(9)
        if known and r.random() < .6: c = max(known)
        return Op("set", k, tag, {"cas": c})
    if n in ("incr", "decr"):
        return Op(n, k, p={"by": r.randrange(1, 1000), "u": r.random() < .3 and n == "incr"} if r.random() < .8 else {})
    if n in ("append", "prepend"):
        return Op(n, k, b"<" + tag + b">")
    if n == "expire":
        return Op(n, k, p={"by": r.choice([1, 2, 100])}) if ttl else None
    return Op(n, k)

from session import _show

def run_waves(ck, tag, letters, plan, what):
    """plan: list of (args, seconds, kwargs)."""
    def job(i, a, t, kw):
        return wave_job(tag, i, a, t, letters, **kw)
    for o in pmap(job, [(i, a, t, kw) for i, (a, t, kw) in enumerate(plan)], workers=min(4, NCPU), ck=ck):
        ck.case(n=o["keyhist"])
        for k in o["kinds"]: ck.distinct.add(("wave", k))
        for k in ("waves", "ops", "overlap", "steps", "undecided", "multi", "jitters", "preempts"):
            ck.count("server_" + {"steps": "search_states", "multi": "key_waves_with_several_possible_states", "overlap": "overlapping_key_histories"}.get(k, k), o[k])
