from engine import *

def engine_part(ck):
    m = tier(5, 60)
    plan = [(mode, hist * m, ops, n, *x) for mode, hist, ops, n, *x in [('batch', 200, 500, 6)]]
    run_seq(ck, "TD", plan)

def run(ck):
    engine_part(ck)
    m = tier(1, 15)
    run_mt(ck, "TR", [("pair", 8 * m, 80, 8, 4, 4), ("pair", 6 * m, 50, 8, 7, 2), ("counter", 8 * m, 60, 20, 4, 2), ("lin", 10 * m, 60, 8, 4, 2)])
    # an unsynchronised access to the batch's own bookkeeping breaks its isolation before any value shows it
    run_mt(ck, "TR", [("pair", 4 * m, 40, 10, 4, 3), ("storm", 4 * m, 20, 40, 5, 1)], san="tsan")
