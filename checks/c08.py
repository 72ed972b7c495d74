from engine import *

def engine_part(ck):
    m = tier(5, 60)
    plan = [(mode, hist * m, ops, n, *x) for mode, hist, ops, n, *x in [('iter', 150, 500, 4), ('collide', 100, 500, 3), ('grow', 1, 30000, 1)]]
    run_seq(ck, "I", plan)
    run_big(ck, "I", [(300000, 1, 2), (25000, 65536, 1)] if not THOROUGH else [(200000, 1, 6), (1500000, 1, 2), (400000, 3, 4), (40000, 65536, 4)])

def run(ck):
    engine_part(ck)
    from srvparts import scan_job, bigscan_job, pmap
    big = [(0, 150000, 1), (1, 6000, 65536)] if not THOROUGH else [(i, k, s) for i, (k, s) in enumerate([(150000, 1), (1000000, 1), (20000, 65536), (400000, 2)] * 3)]
    for o in pmap(bigscan_job, big, ck=ck):
        ck.case(n=o["scans"])
        ck.count("server_big_table_scans", o["scans"]); ck.count("server_big_table_calls", o["calls"]); ck.maxof("server_big_table_keys", o["keys"])
    for o in pmap(scan_job, [(i, tier(8, 400)) for i in range(6)], ck=ck):
        ck.case(n=o["scans"])
        for k in o["kinds"]: ck.distinct.add(k)
        for k in ("contents", "scans", "calls", "keys", "hostile"): ck.count("server_" + k, o[k])
