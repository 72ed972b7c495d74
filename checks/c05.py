from engine import *

def engine_part(ck):
    m = tier(5, 60)
    plan = [(mode, hist * m, ops, n, *x) for mode, hist, ops, n, *x in [('expiry', 250, 600, 6), ('seq', 80, 600, 2)]]
    run_seq(ck, "X", plan)
    run_big(ck, "X", [(200000, 1, 1)] if not THOROUGH else [(200000, 1, 6), (1500000, 1, 2), (400000, 3, 4), (40000, 65536, 4)])

def run(ck):
    engine_part(ck)
    from srvparts import run_model, expiry_matrix_job, pmap
    t = tier(9, 500)
    N = 4
    for o in pmap(expiry_matrix_job, [(i, N) for i in range(N)], ck=ck):
        ck.case(n=o["cases"])
        for k in o["kinds"]: ck.distinct.add(k)
        ck.count("matrix_cases", o["cases"])
    run_model(ck, "c05", "E", t, [["--cas", "yes"], ["--cas", "yes", "--autosweep", "no", "--shards", "1"], ["--shards", "3", "--cas", "yes"], ["--autosweep", "no"]],
              genkw={"ttlp": .8}, clock=.8, batches=50)
