from engine import *

def engine_part(ck):
    m = tier(6, 60)
    plan = [(mode, hist * m, ops, n, *x) for mode, hist, ops, n, *x in [('seq', 120, 600, 3), ('bytes', 60, 400, 1), ('cas', 60, 500, 1), ('expiry', 60, 500, 1), ('collide', 60, 500, 1), ('collide', 24, 4500, 3), ('grow', 1, 40000, 1), ('shrink', 14, 9000, 3)]]
    run_seq(ck, "VXBCT", plan)
    run_big(ck, "V", [(300000, 1, 2), (25000, 65536, 1)] if not THOROUGH else [(200000, 1, 6), (1500000, 1, 2), (400000, 3, 4), (40000, 65536, 4)])

def run(ck):
    engine_part(ck)
