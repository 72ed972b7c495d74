from engine import *
from storm import storm_job
from srvparts import pmap, rmw_job

def run(ck):
    m = tier(1, 20)
    ck.rule = ("multi-threaded rounds of the engine and of whole servers (every command, protocol, background job, connection churn, monitors and termination) under ThreadSanitizer; "
               "a case is one round of overlapping work")
    run_mt(ck, "", [("storm", 8 * m, 20, 60, 6, 3), ("lin", 4 * m, 30, 20, 4, 2), ("notify", 4 * m, 30, 20, 4, 2), ("pair", 2 * m, 20, 15, 4, 1), ("counter", 2 * m, 20, 30, 4, 1)], san="tsan")
    t = tier(18, 600)
    for o in pmap(storm_job, [(i, t, "tsan") for i in range(4)], workers=4, ck=ck):
        ck.case(n=o["rounds"])
        for x in o["kinds"]: ck.distinct.add(("storm",) + x)
        for k in ("ops", "replies", "conns", "servers", "monitored", "terms"): ck.count("storm_" + k, o[k])
    for o in pmap(rmw_job, [(100 + i, tier(4, 200), "tsan") for i in range(2)], workers=4, ck=ck):
        ck.case(n=o["rounds"]); ck.count("rmw_ops", o["ops"])
