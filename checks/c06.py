from engine import *

def engine_part(ck):
    m = tier(5, 60)
    plan = [(mode, hist * m, ops, n, *x) for mode, hist, ops, n, *x in [('evict', 150, 600, 6), ('seq', 80, 500, 2)]]
    run_seq(ck, "E", plan)

def run(ck):
    engine_part(ck)
    from srvparts import lowmem_evict_job, lowmem_refuse_job, pmap
    t = tier(8, 300)
    for o in pmap(lowmem_evict_job, [(i, t) for i in range(4)], ck=ck):
        ck.case(n=o["inserts"] + o["overwrites"])
        for k in ("inserts", "overwrites", "evicted"): ck.count("server_" + k, o[k])
    for o in pmap(lowmem_refuse_job, [(i, t) for i in range(3)], ck=ck):
        ck.case(n=o["refusals"])
        ck.count("server_refusals", o["refusals"]); ck.count("server_entry_comparisons", o["comparisons"])
        for x in o["hows"]: ck.distinct.add(x)
