"""Runs the engine harnesses and turns their output into verdicts and evidence."""
import os, re, subprocess
from common import *
import build

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1")

def _parse_stats(line):
    return {k: int(v) for k, v in re.findall(r"(\w+)=(\d+)", line)}

def run_one(ck, exe, args, timeout=None):
    given = timeout
    cmd = [exe] + [str(a) for a in args]
    for attempt in range(2):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=given or tier((75, 130)[attempt], 900), env=ENV)
            break
        except subprocess.TimeoutExpired as e:
            if attempt == 1:
                return ("hang", cmd, (e.stdout or b"")[-400:].decode("latin1"))
    out = p.stdout.decode("latin1")
    rep = {"cmd": cmd, "output": out[-1500:], "stderr": p.stderr.decode("latin1")[-4000:]}
    last_at = [l for l in out.splitlines() if l.startswith("AT ")][-1:]
    if p.returncode == 0:
        st = [l for l in out.splitlines() if l.startswith("STATS ")]
        if not st:
            raise HarnessError("no STATS line: " + " ".join(cmd))
        return ("ok", cmd, _parse_stats(st[-1]))
    m = [l for l in out.splitlines() if l.startswith("FAIL ")]
    if m:
        f = m[-1]
        cat = re.search(r"cat=(\w)", f).group(1)
        what = re.sub(r"[0-9a-fx]*\d+", "#", f.split(": ", 1)[-1])
        raise Violation(f"engine:{cat}:{what[:80]}", f + (" " + last_at[0] if last_at else ""), rep)
    if "HARNESS" in out:
        raise HarnessError(out[-500:])
    raise Violation(san_key(p.stderr), f"engine harness died (exit {p.returncode}) {last_at}: "
                    + p.stderr.decode("latin1")[-1200:], rep)

NONTRIVIAL = ("comparisons", "events", "lowmem_evictions", "expired_evictions", "iterations", "visits",
              "faults", "nomem", "retained", "batches", "edges", "put_back", "expired_hits",
              "fault_points", "cleared", "ops", "abandoned", "maxcount")

def run_seq(ck, letters, plan, hang_is_violation=True):
    """plan: list of (mode, hist, ops, nseeds, extra args)."""
    exe = build.engine("eng_seq.c", "asan")
    jobs = []
    n = 0
    for mode, hist, ops, nseeds, *extra in plan:
        for s in range(nseeds):
            n += 1
            args = ["--mode", mode, "--seed", SEED * 1000 + n, "--hist", hist, "--ops", ops,
                    "--enforce", letters] + list(extra)
            jobs.append((mode, args))
    abandoned = [0, 0]
    def job(mode, args):
        r = run_one(ck, exe, args)
        if r[0] == "hang":
            if hang_is_violation:
                raise Violation("engine:hang:" + mode, f"engine harness did not finish twice: {r[1]} {r[2]}", {"cmd": r[1]})
            ck.note_inconclusive("timeout " + " ".join(r[1]))
            return
        st = r[2]
        ck.case(n=st["hist"])
        with ck.lock:
            ck.distinct_n += st["states"]
        for k in NONTRIVIAL:
            if k == "maxcount":
                ck.maxof(k, st.get(k, 0))
            elif st.get(k):
                ck.count(k, st[k])
        ck.count("histories_" + mode, st["hist"])
        ck.sample({"mode": mode, "cmd": " ".join(map(str, args)), "stats": {k: v for k, v in st.items() if v}})
        with ck.lock:
            abandoned[0] += st["abandoned"]; abandoned[1] += st["hist"] + st["abandoned"]
    parallel([lambda m=m, a=a: job(m, a) for m, a in jobs], ck=ck)
    ck.rule = ck.rule or ("seeded random call histories over the real engine; a case is one history, the distinct non-trivial "
               "count is the number of different (configuration, operation, status, table state) combinations reached "
               "(hashed, so slightly under-counted)")
    if abandoned[1] and abandoned[0] > abandoned[1] * 0.5:
        ck.note_inconclusive(f"{abandoned[0]} of {abandoned[1]} histories abandoned on another property's failure")

def run_big(ck, letters, plan):
    """Tables of hundreds of thousands of entries. plan: list of (keys, shards, nseeds)."""
    exe = build.engine("eng_big.c", "asan")
    def job(n, keys, shards):
        args = ["--seed", SEED * 1000 + n, "--keys", keys, "--shards", shards, "--enforce", letters]
        r = run_one(ck, exe, args)
        if r[0] == "hang":
            raise Violation("engine:hang:big", f"engine harness did not finish twice: {r[1]} {r[2]}", {"cmd": r[1]})
        st = r[2]
        if st["abandoned"]:
            ck.note_inconclusive("abandoned on another property's failure: " + " ".join(map(str, args)))
            return
        ck.case(n=st["states"])
        ck.count("big_table_phases", st["states"]); ck.count("big_table_operations", st["ops"]); ck.count("big_table_visits", st["visits"])
        ck.maxof("big_table_entries", st["maxcount"])
        ck.distinct.add(f"big table of {keys} keys over {shards} shards, {n}")
    parallel([lambda n=i * 10 + j, k=k, s=s: job(n, k, s) for i, (k, s, m) in enumerate(plan) for j in range(m)], ck=ck)

MT_NAMES = ("overlapping_pairs", "key_histories", "search_states", "undecided", "notifications", "yields", "delays",
            "retained", "isolated_reads", "changed", "cas_won", "cas_lost")
TSAN_ENV = dict(os.environ, TSAN_OPTIONS="halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1")

def run_mt(ck, letters, plan, san="asan"):
    """plan: list of (mode, caches, rounds, ops, threads, nseeds)."""
    exe = build.engine("eng_mt.c", san)
    jobs = []
    n = 0
    for mode, caches, rounds, ops, threads, nseeds in plan:
        for s in range(nseeds):
            n += 1
            jobs.append((mode, ["--mode", mode, "--seed", SEED * 1000 + n, "--caches", caches, "--rounds", rounds,
                                "--ops", ops, "--threads", threads, "--enforce", letters or "-"]))
    def job(mode, args):
        cmd = [exe] + [str(a) for a in args]
        env = ENV if san == "asan" else TSAN_ENV
        for attempt in range(2):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tier((120, 200)[attempt], 3000), env=env)
                break
            except subprocess.TimeoutExpired:
                if attempt:
                    raise Violation("engine-mt:hang:" + mode, "threads never finished (twice): " + " ".join(cmd), {"cmd": cmd})
        out = p.stdout.decode("latin1"); err = p.stderr.decode("latin1")
        rep = {"cmd": cmd, "output": out[-6000:], "stderr": err[-6000:]}
        st = [l for l in out.splitlines() if l.startswith("STATS ")]
        if p.returncode == 0 and st:
            d = _parse_stats(st[-1])
            ck.case(n=d["rounds"])
            ck.count("mt_ops_" + san, d["ops"])
            with ck.lock:
                ck.distinct_n += d["interleavings"] if d["interleavings"] else (d["rounds"] if d["yields"] else 0)
            for k in MT_NAMES:
                if d.get(k):
                    ck.count("mt_" + k, d[k])
            ck.sample({"mode": mode, "san": san, "cmd": " ".join(map(str, args)), "stats": {k: v for k, v in d.items() if v}})
            return
        m = [l for l in out.splitlines() if l.startswith("FAIL ")]
        if m:
            f = m[-1]
            what = re.sub(r"[0-9a-fx]*\d+", "#", f.split(": ", 1)[-1])
            raise Violation(f"engine-mt:{re.search(r'cat=(.)', f).group(1)}:{what[:80]}", f + "\n" + out[-2500:], rep)
        if p.returncode < 0 or "Sanitizer" in err or "runtime error" in err:
            raise Violation(san_key(err), f"multi-threaded engine run died (exit {p.returncode}): {err[:2500]}", rep)
        raise HarnessError(f"exit {p.returncode}: {' '.join(cmd)}\n{out[-500:]}\n{err[-500:]}")
    # each job is itself multi-threaded: fewer jobs at a time
    parallel([lambda m=m, a=a: job(m, a) for m, a in jobs], workers=3, ck=ck)
