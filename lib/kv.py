"""The keyspace model: operations, how each protocol spells them, what each must answer, what they do.

An operation works on one key (`step`) or on several keys one after another. Error replies are
compared by being an error, never by their text. Every mismatch carries a category letter:
E an entry with an expiration is involved, B value bytes, K CAS numbers, F flags, P anything else."""
import struct, random
from collections import namedtuple
from common import Violation, HarnessError
from proto import *

SEC = 10 ** 9
MS = 10 ** 6
I64MAX, I64MIN, U64MAX = 2 ** 63 - 1, -2 ** 63, 2 ** 64 - 1
E = namedtuple("E", "value exp flags cas")           # exp: boot ns, 0 = never; cas: None = not read yet
_Op = namedtuple("Op", "name key val p keys")
def Op(name, key=None, val=b"", p=None, keys=()):
    return _Op(name, key, val, dict(p or {}), keys)
PROTOS = ("resp", "inline", "mc", "http", "pgq", "pge")

class Env:
    """Clock of an evaluation."""
    __slots__ = ("now", "real", "cas")
    def __init__(self, now, real, cas=True):
        self.now, self.real, self.cas = now, real, cas

def clamp(x):
    return max(I64MIN, min(I64MAX, x))

import re
_AMB = re.compile(rb"[ \t\n\v\f\r]*[+-]?[0-9]+\Z")
_CANON = re.compile(rb"-?[0-9]{1,20}\Z")
def num(b, unsigned=False):
    """The integer a byte string denotes, or None. Ambiguous spellings must not be generated."""
    if _AMB.match(b) and not _CANON.match(b):
        if len(b) > 60 or abs(int(b)) > U64MAX:
            return None
        if unsigned and b"-" in b and int(b) != 0:
            return None
        return "amb"
    s = b
    if not unsigned and s[:1] == b"-":
        s = s[1:]
    if not s.isdigit():
        return None
    n = int(b)
    return n if (0 <= n <= U64MAX if unsigned else I64MIN <= n <= I64MAX) else None

def live(e, now):
    return e is not None and (e.exp == 0 or e.exp > now)

MAXVAL = 500 * 1024 * 1024

def expiry(p, env, proto):
    """(exp, error)"""
    t = p.get("ttl")
    if t is None:
        return 0, None
    k, n = t
    if proto == "mc":
        if n == 0:
            return 0, None
        if n < 0:
            return env.now, None
        if n > 30 * 86400:
            x = clamp(n * SEC) - env.real
            return (clamp(env.now + x) if x > 0 else env.now), None
        return clamp(env.now + n * SEC), None
    if n <= 0:
        return 0, "expire"
    u = SEC if k in ("ex", "exat") else MS
    if k in ("ex", "px"):
        return clamp(env.now + clamp(n * u)), None
    return max(1, clamp(env.now + clamp(n * u) - env.real)), None

def step(e, op, env, proto):
    """Effect of a single-key operation: (new entry, result)."""
    if not live(e, env.now):
        e = None
    n, p = op.name, op.p
    if n == "set":
        if p.get("bad"):
            return e, ("err",)
        exp, err = expiry(p, env, proto)
        if err:
            return e, ("err",)
        if p.get("cas") is not None and not env.cas:
            raise HarnessError("cas op without --cas")
        why = None
        if p.get("cas") is not None:
            if e is None:
                why = "missing"
            elif e.cas != p["cas"]:
                why = "exists"
        if why is None and p.get("cond") == "nx" and e is not None:
            why = "exists"
        if why is None and p.get("cond") == "xx" and e is None:
            why = "missing"
        if why:
            return e, ("set", False, why, e)
        if p.get("keepttl") and e is not None:
            exp = e.exp
        ne = E(op.val, exp, p.get("flags", 0) & 0xffffffff, None)
        return ne, ("set", True, None, e)
    if n in ("get", "gets"):
        return e, (n, e)
    if n == "del":
        return None, ("n", 1 if e else 0)
    if n in ("exists", "touch"):
        return e, ("n", 1 if e else 0)
    if n in ("incr", "decr"):
        uns = p.get("u", False) or proto == "mc"
        d = p.get("by")
        if p.get("badby"):
            return e, ("err",)
        if d is None:
            d = 1
        if e is None:
            if proto == "mc":
                return e, ("missing",)
            cur = 0
        else:
            cur = num(e.value, uns)
            if cur is None:
                return e, ("err",)
            if cur == "amb":
                # a blank-padded, signed or very long spelling: both verdicts are tolerated
                ne, res = step(e._replace(value=b"%d" % int(e.value) if len(e.value) < 100 else b"x"), op, env, proto)
                return ne, ("amb", e, res)
        r = cur - d if n == "decr" else cur + d
        lo, hi = (0, U64MAX) if uns else (I64MIN, I64MAX)
        if not lo <= r <= hi:
            if proto == "mc":
                r = 0 if n == "decr" else r & U64MAX
            else:
                return e, ("err",)
        ne = E(b"%d" % r, e.exp if e else 0, e.flags if e else 0, None)
        return ne, ("num", r, uns)
    if n in ("append", "prepend"):
        if e is None:
            if proto == "mc":
                return e, ("missing",)
            return E(op.val, 0, 0, None), ("len", len(op.val))
        v = e.value + op.val if n == "append" else op.val + e.value
        if len(v) > MAXVAL:
            return e, ("err",)
        return E(v, e.exp, e.flags, None), ("len", len(v))
    if n in ("ttl", "pttl"):
        if e is None:
            return e, ("ttl", -2)
        if e.exp == 0:
            return e, ("ttl", -1)
        return e, ("ttl", (e.exp - env.now) // (MS if n == "pttl" else SEC))
    if n == "expire":
        if p.get("badby"):
            return e, ("err",)
        x = p["by"]
        if proto == "mc":
            exp, _ = expiry({"ttl": ("ex", x)}, env, proto)
        else:
            exp = clamp(env.now + clamp(x * SEC))
            exp = max(1, exp)
        if e is None:
            return e, ("n", 0)
        # the CAS value changes with the entry
        ne = E(e.value, exp, e.flags, None)
        return (ne if exp == 0 or exp > env.now else None), ("n", 1)
    raise HarnessError("op " + n)

# ------------------------------------------------------------------ spelling
def _case(w, r):
    return w if r is None else bytes(c ^ 32 if 65 <= c <= 122 and chr(c).isalpha() and r.random() < .3 else c for c in w)

def argv(op, r=None):
    """Command words for RESP / inline / Postgres, with r choosing among equivalent spellings."""
    n, p, k = op.name, op.p, op.key
    d = lambda x: b"%d" % x
    if n == "raw":
        return list(op.keys)
    if n == "set":
        if p.get("raw"):
            return [_case(b"SET", r), k, op.val] + p["raw"]
        t = p.get("ttl")
        if (t and t[0] == "ex" and set(p) == {"ttl"} and r is not None and r.random() < .4):
            return [_case(b"SETEX", r), k, d(t[1]), op.val]
        o = []
        if t:
            o.append([_case(t[0].encode().upper(), r), d(t[1])])
        if p.get("cond"):
            o.append([_case(p["cond"].encode().upper(), r)])
        if p.get("get"):
            o.append([_case(b"GET", r)])
        if p.get("keepttl"):
            o.append([_case(b"KEEPTTL", r)])
        if "flags" in p:
            o.append([_case(b"FLAGS", r), d(p["flags"])])
        if p.get("cas") is not None:
            o.append([_case(b"CAS", r), d(p["cas"])])
        if r is not None:
            r.shuffle(o)
        return [_case(b"SET", r), k, op.val] + [x for y in o for x in y]
    if n in ("get", "ttl", "pttl"):
        return [_case(n.upper().encode(), r), k]
    if n == "gets":
        return [_case(b"MGETS", r), k]
    if n in ("del", "exists", "touch"):
        return [_case(n.upper().encode(), r), k]
    if n in ("mget", "mgets", "mdel", "mexists", "mtouch"):
        w = {"mdel": b"DEL", "mexists": b"EXISTS", "mtouch": b"TOUCH"}.get(n, n.upper().encode())
        return [_case(w, r)] + list(op.keys)
    if n in ("incr", "decr"):
        w = (b"U" if p.get("u") else b"") + n.upper().encode()
        if p.get("badby"):
            return [_case(w + b"BY", r), k, p["badby"]]
        if p.get("by") is None:
            return [_case(w, r), k]
        return [_case(w + b"BY", r), k, d(p["by"])]
    if n in ("append", "prepend"):
        return [_case(n.upper().encode(), r), k, op.val]
    if n == "expire":
        return [_case(b"EXPIRE", r), k, p.get("badby") or d(p["by"])]
    if n == "echo":
        return [_case(b"ECHO", r), op.val]
    if n == "ping":
        return [_case(b"PING", r)] + ([op.val] if p.get("msg") else [])
    if n == "dbsize":
        return [_case(b"DBSIZE", r)]
    if n == "keys":
        return [_case(b"KEYS", r), op.val]
    if n == "flush":
        return [_case(p.get("w", b"FLUSHALL"), r)] + p.get("o", [])
    if n == "sweep":
        return [_case(b"SWEEP", r)] + p.get("o", [])
    raise HarnessError("argv " + n)

def mc_key_ok(k):
    return 0 < len(k) <= 250 and not any(c <= 32 or c == 127 for c in k)
def http_key_ok(k):
    return 0 < len(k) <= 250 and all(33 <= c < 127 and c not in b"%+@$?=&#/" for c in k)

def can(proto, op):
    n, p = op.name, op.p
    if proto in ("resp", "pge"):
        return not (n == "set" and p.get("mc"))
    if proto == "inline":
        # the other words are quoted by the encoder
        return len(op.val) < 100000 and not p.get("mc") and not (op.name == "raw" and not op.keys)
    if proto == "pgq":
        if p.get("mc"):
            return False
        a = argv(op)
        return not any(b"\0" in x for x in a)
    if proto == "mc":
        ks = op.keys if op.keys else ([op.key] if op.key is not None else [])
        if not all(mc_key_ok(k) for k in ks):
            return False
        if n == "set":
            if p.get("raw") or p.get("keepttl") or p.get("get") or p.get("bad"):
                return False
            t = p.get("ttl")
            if t and t[0] != "ex":
                return False
            if p.get("cas") is not None and p.get("cond"):
                return False
            return True
        if n in ("get", "gets", "mget", "mgets", "append", "prepend", "del", "expire"):
            return not p.get("badby") and (n != "expire" or abs(p["by"]) < 2 ** 63)
        if n in ("incr", "decr"):
            return not p.get("badby") and (p.get("by") is None or 0 <= p["by"] <= U64MAX)
        return n == "flush" and not p.get("o")
    if proto == "http":
        if op.key is None or not http_key_ok(op.key):
            return False
        if n == "set":
            if p.get("raw") or p.get("keepttl") or p.get("get") or p.get("bad"):
                return False
            t = p.get("ttl")
            return not t or (t[0] == "ex")
        return n in ("get", "del")
    return False

SAFE = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-:./*?")
def pg_token(a, r):
    """One argument as statement text."""
    plain = a and all(c in SAFE for c in a) and a[:1].isalnum() and a.upper() not in (b"E",)
    x = r.random() if r else 0.5
    if plain and x < .4:
        return a
    if x < .8:
        return pg_lit(a)
    return pg_elit(a)

def render(proto, op, r):
    n, p = op.name, op.p
    if proto == "resp":
        return enc_resp(argv(op, r))
    if proto == "inline":
        return enc_inline(argv(op, r), r)
    if proto == "pgq":
        a = argv(op, r)
        s = b" ".join([a[0]] + [pg_token(x, r) for x in a[1:]])
        return pg_q(s + (b";" if r.random() < .5 else b""))
    if proto == "pge":
        a = argv(op, r)
        ps, toks, ids = [], [a[0]], list(range(len(a) - 1))
        use = {i for i in ids if b"\0" in a[i + 1] or r.random() < .6}
        order = list(use)
        r.shuffle(order)
        for i in ids:
            if i in use:
                same = [j for j in order[:order.index(i)] if a[j + 1] == a[i + 1]]
                toks.append(b"$%d" % (order.index(i) + 1))
            else:
                toks.append(pg_token(a[i + 1], r))
        name = r.choice([b"", b"", b"s1", b"stmt_two"])
        portal = r.choice([b"", b"", b"p1"])
        vals = [a[i + 1] for i in order]
        d = pg_parse(b" ".join(toks), name) + pg_bind(vals, portal, name) + pg_exec(portal) + PG_SYNC
        return d
    if proto == "mc":
        k = op.key
        if n == "set":
            t = p.get("ttl")
            w = b"set"
            if p.get("cond") == "nx": w = b"add"
            if p.get("cond") == "xx": w = b"replace"
            tail = b""
            if p.get("cas") is not None:
                w = b"cas"; tail = b" %d" % p["cas"]
            nr = b" noreply" if p.get("noreply") else b""
            return b"%s %s %d %d %d%s%s\r\n%s\r\n" % (w, k, p.get("flags", 0), t[1] if t else 0, len(op.val), tail, nr, op.val)
        if n in ("append", "prepend"):
            nr = b" noreply" if p.get("noreply") else b""
            return b"%s %s 0 0 %d%s\r\n%s\r\n" % (n.encode(), k, len(op.val), nr, op.val)
        if n in ("get", "gets"):
            return b"%s %s\r\n" % (n.encode(), k)
        if n in ("mget", "mgets"):
            return b"%s %s\r\n" % (n[1:].encode(), b" ".join(op.keys))
        nr = b" noreply" if p.get("noreply") else b""
        if n == "del":
            return b"delete %s%s\r\n" % (k, nr)
        if n in ("incr", "decr"):
            return b"%s %s %d%s\r\n" % (n.encode(), k, 1 if p.get("by") is None else p["by"], nr)
        if n == "expire":
            return b"touch %s %d%s\r\n" % (k, p["by"], nr)
        if n == "flush":
            return b"flush_all\r\n"
    if proto == "http":
        k = op.key
        if n == "get":
            return http_get(k)
        if n == "del":
            return http_del(k)
        q = []
        t = p.get("ttl")
        if t: q.append((r.choice([b"ttl", b"ex"]), b"%d" % t[1]))
        if "flags" in p: q.append((b"flags", b"%d" % p["flags"]))
        if p.get("cas") is not None: q.append((b"cas", b"%d" % p["cas"]))
        if p.get("cond"): q.append((p["cond"].encode(), r.choice([b"yes", b"1", b"true"])))
        r.shuffle(q)
        return http_put(k, op.val, (b"?" + b"&".join(a + b"=" + b for a, b in q)) if q else b"")
    raise HarnessError(f"render {proto} {n}")

def noreply(proto, op):
    return proto == "mc" and op.p.get("noreply", False)

# ------------------------------------------------------------------ reading
PgR = namedtuple("PgR", "cols rows tag err seq")
def pg_sum(msgs):
    cols = tag = err = None
    rows = []
    for t, d in msgs:
        if t == "T": cols = d
        elif t == "D": rows.append(d)
        elif t == "C":
            if tag is not None: raise Bad("two command tags in one reply")
            tag = d
        elif t == "E":
            if err is not None: raise Bad("two errors in one reply")
            err = d
    return PgR(cols, rows, tag, err, "".join(t for t, _ in msgs))

def read_reply(conn, proto):
    if proto in ("resp", "inline"):
        return conn.read(resp)
    if proto == "mc":
        return conn.read(memcache)
    if proto == "http":
        return conn.read(http)
    return pg_sum(conn.until_ready())

def is_err(proto, rep):
    if proto in ("resp", "inline"):
        return rep[0] == "-"
    if proto == "mc":
        return rep[0] == "line" and rep[1].split(b" ")[0] in (b"ERROR", b"CLIENT_ERROR", b"SERVER_ERROR", b"ERR")
    if proto == "http":
        return rep[1] >= 400 and rep[1] != 404
    return rep.err is not None

# ------------------------------------------------------------------ judging
def _val(r):
    return ("$", r)
def _diff(want, got):
    return f"expected {want!r:.300}, got {got!r:.300}"

def judge(proto, op, res, rep):
    """(category or None, text, [cas learned per key])"""
    n, kind = op.name, res[0]
    P = "P"
    if kind == "any":
        return None, "", []
    if kind == "err":
        if is_err(proto, rep):
            return None, "", []
        return P, f"expected an error, got {rep!r:.300}", []
    if is_err(proto, rep):
        return P, f"expected {res!r:.200}, got the error {rep!r:.200}", []
    rp = proto in ("resp", "inline")
    pg = proto in ("pgq", "pge")
    if pg:
        want_seq = {"pgq": "", "pge": "12"}[proto]
        if not rep.seq.startswith(want_seq) or not rep.seq.endswith("CZ"):
            return P, f"message sequence {rep.seq}", []
    def eq(want, got, cat=P):
        return (None, "", []) if want == got else (cat, _diff(want, got), [])
    def tagrows(tag, rows, cols=None):
        if rep.tag != tag:
            return P, _diff(tag, rep.tag), []
        if rep.rows != rows:
            return ("B" if len(rows) == len(rep.rows) else P), _diff(rows, rep.rows), []
        return None, "", []
    if kind == "set":
        _, stored, why, old = res
        if op.p.get("get"):
            if pg:
                if not stored and not rep.rows: return None, "", []
                return tagrows(b"SET 1" if old else b"SET 0", [[old.value]] if old else [])
            want = _val(old.value) if old else NULL
            if not stored and rep == NULL: return None, "", []
            return eq(want, rep, "B" if old and rep[0] == "$" else P)
        if rp: return eq(("+", b"OK") if stored else NULL, rep)
        if proto == "mc":
            if stored: return eq(("line", b"STORED"), rep)
            ok = {"exists": (b"EXISTS", b"NOT_STORED"), "missing": (b"NOT_FOUND", b"NOT_STORED")}[why]
            if op.p.get("cas") is not None: ok = ok[:1]
            return (None, "", []) if rep[0] == "line" and rep[1] in ok else (P, _diff(ok, rep), [])
        if proto == "http":
            return eq((200, b"Stored\r\n") if stored else (404, b"Not Found\r\n"), (rep[1], rep[3]))
        tag = rep.tag.split(b" ")
        return eq([b"1" if stored else b"0"], tag[1:])
    if kind == "get":
        e = res[1]
        if rp: return eq(_val(e.value) if e else NULL, rep, "B" if e and rep[0] == "$" else P)
        if proto == "mc":
            want = [(op.key, e.flags, e.value, None)] if e else []
            return _mcvals(want, rep, False)
        if proto == "http":
            if e: return eq((200, e.value), (rep[1], rep[3]), "B" if rep[1] == 200 else P)
            return eq((404, b"Not Found\r\n"), (rep[1], rep[3]))
        return tagrows(b"GET 1" if e else b"GET 0", [[e.value]] if e else [])
    if kind == "gets":
        return judge(proto, op._replace(name="mgets", keys=(op.key,)), ("mgets", [res[1]]), rep)
    if kind in ("mget", "mgets"):
        es = res[1]
        s = kind == "mgets"
        if rp:
            if rep[0] != "*" or len(rep[1]) != len(es):
                return P, _diff(es, rep), []
            cs = []
            for e, g in zip(es, rep[1]):
                c = None
                if e is None:
                    if g != NULL: return P, _diff("null", g), []
                elif not s:
                    if g != _val(e.value): return ("B" if g[0] == "$" else P), _diff(e.value, g), []
                else:
                    try:
                        (a, f), (b, c), (d, v) = g[1]
                        f, c = _canon(f), _canon(c)
                        if (a, b, d) != ("+", "+", "$"): raise ValueError
                    except Exception:
                        return P, _diff("[flags,cas,value]", g), []
                    if v != e.value: return "B", _diff(e.value, v), []
                    if f != e.flags: return "F", _diff(e.flags, f), []
                    k = _cascheck(e, c)
                    if k: return k[0], k[1], []
                cs.append(c)
            return None, "", cs
        if proto == "mc":
            want = [(k, e.flags, e.value, e.cas) for k, e in zip(op.keys, es) if e]
            return _mcvals(want, rep, s, es)
        hits = [(k, e) for k, e in zip(op.keys, es) if e]
        if rep.tag != b"MGET %d" % len(hits) or len(rep.rows) != len(hits):
            return P, _diff(hits, rep), []
        cs = []
        it = iter(rep.rows)
        for k, e in zip(op.keys, es):
            c = None
            if e:
                row = next(it)
                if s:
                    if len(row) != 4: return P, _diff("4 columns", row), []
                    try: f, c = _canon(row[1]), _canon(row[2])
                    except Exception: return P, _diff("numbers", row), []
                    if f != e.flags: return "F", _diff(e.flags, f), []
                    x = _cascheck(e, c)
                    if x: return x[0], x[1], []
                elif len(row) != 2: return P, _diff("2 columns", row), []
                if row[0] != k or row[-1] != e.value: return "B", _diff((k, e.value), row), []
            cs.append(c)
        return None, "", cs
    if kind == "n":
        c = res[1]
        if rp: return eq((":", c), rep)
        if proto == "mc":
            w = {"del": (b"DELETED", b"NOT_FOUND"), "expire": (b"TOUCHED", b"NOT_FOUND")}[n]
            return eq(("line", w[0] if c else w[1]), rep)
        if proto == "http":
            return eq((200, b"Deleted\r\n") if c else (404, b"Not Found\r\n"), (rep[1], rep[3]))
        if n in ("exists", "mexists"):
            return tagrows(b"EXISTS", [[b"%d" % c]])
        w = {"del": b"DEL", "mdel": b"DEL", "touch": b"TOUCH", "mtouch": b"TOUCH", "expire": b"EXPIRE"}[n]
        return tagrows(w + b" %d" % c, [])
    if kind == "num":
        if rp:
            if res[2]: return eq(("+", b"%d" % res[1]), rep)
            return eq((":", res[1]), rep)
        if proto == "mc": return eq(("line", b"%d" % res[1]), rep)
        if rep.rows != [[b"%d" % res[1]]]: return P, _diff(res[1], rep), []
        return None, "", []
    if kind == "len":
        if rp: return eq((":", res[1]), rep)
        if proto == "mc": return eq(("line", b"STORED"), rep)
        return eq([b"%d" % res[1]], rep.tag.split(b" ")[1:])
    if kind == "missing":
        w = b"NOT_STORED" if n in ("append", "prepend") else b"NOT_FOUND"
        return eq(("line", w), rep)
    if kind == "ttl":
        if rp: return eq((":", res[1]), rep)
        if res[1] == -2: return eq([], rep.rows)
        return eq([[b"%d" % res[1]]], rep.rows)
    if kind == "text":
        if rp: return eq(res[1], rep, "B")
        return eq([[res[1][1]]], rep.rows, "B")
    if kind == "ok":
        if rp: return eq(("+", b"OK"), rep)
        if proto == "mc": return eq(("line", b"OK"), rep)
        if n == "flush":
            w = op.p.get("w", b"FLUSHALL").upper()
            return (None, "", []) if rep.tag and rep.tag.split(b" ")[0] == w else (P, _diff(w, rep.tag), [])
        return None, "", []
    if kind == "range":
        lo, hi = res[1:]
        if rp: v = rep[1] if rep[0] == ":" else None
        else: v = _canon(rep.rows[0][0]) if rep.rows and rep.rows[0][0].isdigit() else None
        return (None, "", []) if v is not None and lo <= v <= hi else (P, _diff((lo, hi), rep), [])
    if kind == "keyset":
        try:
            got = [x[1] for x in rep[1]] if rp else [x[0] for x in rep.rows]
        except Exception:
            return P, _diff("key list", rep), []
        return eq(sorted(res[1]), sorted(got))
    raise HarnessError("judge " + kind)

def _canon(b):
    n = int(b)
    if b != b"%d" % n:
        raise ValueError(b)
    return n
def _cascheck(e, c):
    if e.cas is not None and e.cas != c:
        return "K", f"CAS value changed from {e.cas} to {c} without a modification"
    return None
def _mcvals(want, rep, cas, es=None):
    if rep[0] != "values":
        return "P", _diff(want, rep), []
    if [w[0] for w in want] != [g[0] for g in rep[1]]:
        return "P", _diff(want, rep), []
    for w, g in zip(want, rep[1]):
        if w[2] != g[2]: return "B", _diff(w, g), []
        if w[1] != g[1]: return "F", _diff(w, g), []
        if cas != (g[3] is not None): return "P", _diff(w, g), []
        if cas and w[3] is not None and w[3] != g[3]:
            return "K", f"CAS value changed from {w[3]} to {g[3]} without a modification", []
    cs = []
    it = iter(rep[1])
    for e in (es or want):
        cs.append(next(it)[3] if e else None)
    return None, "", cs

# ------------------------------------------------------------------ statistics
def stat_effect(op, proto, res, n=None):
    """Counter increments that the operation must cause."""
    k, o = op.name, {}
    def add(x, v=1):
        o[x] = o.get(x, 0) + v
    if res[0] == "set":
        add("cmd_set")
    elif res[0] in ("get", "gets"):
        add("cmd_get"); add("get_hits" if res[1] else "get_misses")
    elif res[0] in ("mget", "mgets"):
        for e in res[1]:
            add("cmd_get"); add("get_hits" if e else "get_misses")
    elif res[0] == "ttl":
        add("get_misses" if res[1] == -2 else "get_hits")
    elif k == "del" and res[0] == "n":
        add("delete_hits" if res[1] else "delete_misses")
    elif k == "mdel":
        add("delete_hits", res[1]); add("delete_misses", len(op.keys) - res[1])
    elif k == "touch":
        add("cmd_touch"); add("touch_hits" if res[1] else "touch_misses")
    elif k == "mtouch":
        add("cmd_touch", len(op.keys)); add("touch_hits", res[1]); add("touch_misses", len(op.keys) - res[1])
    elif k in ("incr", "decr"):
        if res[0] == "num": add(k + "_hits")
        elif res[0] == "missing": add(k + "_misses")
    elif k == "flush" and res[0] == "ok":
        add("cmd_flush")
    return o

# ------------------------------------------------------------------ whole keyspace
class Model:
    def __init__(self, now, real, cas=True):
        self.env = Env(now, real, cas)
        self.d = {}
        self.seen = {}            # key -> CAS values ever shown for it
        self.stats = {}
        self.slack = {}
        self.total = [0, 0]       # stores that created an entry: at least, at most
        self.expiring = set()     # keys that ever had an expiration
    def live_items(self):
        now = self.env.now
        return {k: e for k, e in self.d.items() if live(e, now)}
    def advance(self, ns):
        self.env.now += ns; self.env.real += ns
    def apply(self, op, proto):
        n, env = op.name, self.env
        if n in ("mget", "mgets"):
            r = (n, [self._get(k) for k in op.keys])
        elif n in ("mdel", "mexists", "mtouch"):
            c = 0
            for k in op.keys:
                c += 1 if self._get(k) else 0
                if n == "mdel": self.d.pop(k, None)
            r = ("n", c)
        elif n == "echo" or (n == "ping" and op.p.get("msg")):
            r = ("text", ("$", op.val))
        elif n == "ping":
            r = ("text", ("+", b"PONG"))
        elif n == "raw":
            if op.keys and op.keys[0].upper() == b"GET":
                self.slack["cmd_get"] = self.slack.get("cmd_get", 0) + 1      # refused, may be counted or not
            r = ("err",)
        elif n == "dbsize":
            l = len(self.live_items())
            r = ("range", l, len(self.d))
        elif n == "keys":
            import re as _re
            r = ("keyset", [k for k in self.live_items() if glob(op.val, k)])
        elif n == "flush":
            if op.p.get("bad"): r = ("err",)
            else:
                self.d.clear(); r = ("ok",)
        elif n == "sweep":
            if op.p.get("bad"): r = ("err",)
            else:
                self.d = self.live_items(); r = ("any",)
        else:
            e = self.d.get(op.key)
            dead = e is not None and not live(e, env.now)
            ne, r = step(e, op, env, proto)
            if ne is not None and not live(e, env.now):
                self.total[1] += 1
                self.total[0] += 0 if dead else 1
            if ne is None:
                # an expired entry may or may not have been removed physically; keep it for DBSIZE's upper bound
                if not dead or n == "del": self.d.pop(op.key, None)
                if n == "expire" and r == ("n", 1): self.d[op.key] = E(b"", 1, 0, None)
            else:
                self.d[op.key] = ne
                if ne.exp: self.expiring.add(op.key)
        for a, b in stat_effect(op, proto, r).items():
            self.stats[a] = self.stats.get(a, 0) + b
        return r
    def _get(self, k):
        e = self.d.get(k)
        return e if live(e, self.env.now) else None
    def learn(self, op, cs):
        """Notes CAS values shown; returns a mismatch text or None."""
        keys = op.keys if op.name in ("mgets", "mget") else (op.key,)
        for k, c in zip(keys, cs):
            if c is None: continue
            e = self.d.get(k)
            if e is None: continue
            if e.cas is None:
                if c in self.seen.setdefault(k, set()):
                    return f"CAS value {c} of {k!r:.60} was shown before for an older version"
                if self.env.cas:
                    self.seen[k].add(c)
                    self.d[k] = e._replace(cas=c)
            elif e.cas != c:
                return f"CAS value of {k!r:.60} changed from {e.cas} to {c} without a modification"
        return None
    def involves_expiry(self, op):
        ks = op.keys if op.keys else (op.key,)
        if op.name in ("dbsize", "keys"):
            return bool(self.expiring)
        return any(k in self.expiring for k in ks)

def glob(pat, s):
    """Reference matcher: * any run, ? any byte, backslash makes the next byte literal."""
    toks = []
    i = 0
    while i < len(pat):
        c = pat[i]
        if c == 92 and i + 1 < len(pat):
            toks.append(pat[i + 1]); i += 2
        elif c == 92:
            toks.append(None); i += 1       # a trailing backslash: see Check C25
        elif c == 42:
            toks.append("*"); i += 1
        elif c == 63:
            toks.append("?"); i += 1
        else:
            toks.append(c); i += 1
    cur = {0}
    def close(st):
        out = set(st)
        for x in list(st):
            while x < len(toks) and toks[x] == "*":
                x += 1; out.add(x)
        return out
    cur = close(cur)
    for ch in s:
        nx = set()
        for x in cur:
            if x < len(toks):
                t = toks[x]
                if t == "*": nx.add(x)
                elif t == "?" or t == ch: nx.add(x + 1)
        cur = close(nx)
        if not cur: return False
    return len(toks) in cur
