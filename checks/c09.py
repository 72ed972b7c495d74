from engine import *

def engine_part(ck):
    m = tier(5, 60)
    plan = [(mode, hist * m, ops, n, *x) for mode, hist, ops, n, *x in [('notify', 150, 500, 4), ('evict', 80, 500, 1), ('expiry', 80, 500, 1), ('collide', 60, 500, 1), ('shrink', 10, 3000, 1)]]
    run_seq(ck, "NM", plan)
    run_big(ck, "NEM", [(200000, 1, 1)] if not THOROUGH else [(200000, 1, 6), (1500000, 1, 2), (400000, 3, 4), (40000, 65536, 4)])

def run(ck):
    engine_part(ck)
    m = tier(1, 15)
    run_mt(ck, "NM", [("notify", 10 * m, 100, 8, 4, 4), ("notify", 8 * m, 60, 6, 7, 2)])
    from leakjob import leak_job
    from srvparts import pmap
    for o in pmap(leak_job, [(i, tier(8, 300)) for i in range(8)], ck=ck):
        ck.case(n=o["bursts"])
        for x in o["kinds"]: ck.distinct.add(x)
        for k in ("bursts", "reqs", "servers"): ck.count({"bursts": "server_bursts_measured", "reqs": "server_requests"}.get(k, k), o[k])
