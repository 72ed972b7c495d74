from engine import *
from srvparts import *

def engine_part(ck):
    m = tier(5, 60)
    plan = [(mode, hist * m, ops, n, *x) for mode, hist, ops, n, *x in [('account', 150, 500, 4), ('evict', 80, 500, 1), ('expiry', 80, 500, 1), ('iter', 80, 500, 1), ('shrink', 10, 3000, 1)]]
    run_seq(ck, "A", plan)
    run_big(ck, "A", [(200000, 1, 1)] if not THOROUGH else [(200000, 1, 6), (1500000, 1, 2), (400000, 3, 4), (40000, 65536, 4)])

def run(ck):
    engine_part(ck)
    m = tier(1, 15)
    run_mt(ck, "A", [("notify", 10 * m, 100, 8, 4, 3), ("lin", 8 * m, 60, 6, 7, 2)])
    # server: every counter against the operations issued, and the connection counters under churn
    t = tier(8, 300)
    run_model(ck, "c10", "S", t, [["--cas", "yes"], ["--threads", "4"], ["--cas", "yes", "--threads", "1"], []], pre=stats_pre, post=stats_post, batches=20)
    for o in pmap(conn_stats_job, [(i, t) for i in range(4)], ck=ck):
        ck.case(n=o["rounds"])
        ck.count("connection_counter_comparisons", o["rounds"] * 6)
        ck.count("connection_events", o["events"])
    for o in pmap(conc_stats_job, [(i, t) for i in range(4)], ck=ck):
        ck.case(n=o["rounds"] - o["abandoned"])
        ck.count("concurrent_statistics_rounds", o["rounds"] - o["abandoned"]); ck.count("concurrent_ops", o["ops"])
        if o["abandoned"]: ck.note_inconclusive("abandoned: " + str(o["why"])[:300])
