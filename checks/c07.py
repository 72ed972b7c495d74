from engine import *

def engine_part(ck):
    m = tier(5, 60)
    plan = [(mode, hist * m, ops, n, *x) for mode, hist, ops, n, *x in [('bytes', 160, 500, 5), ('seq', 80, 500, 2), ('collide', 80, 500, 1)]]
    run_seq(ck, "B", plan)

def run(ck):
    engine_part(ck)
    from srvparts import bytes_job, run_model, pmap
    t = tier(9, 600)
    for o in pmap(bytes_job, [(i, t, True) for i in range(6)], ck=ck):
        ck.case(n=o["pairs"])
        for k in o["kinds"]: ck.distinct.add(k)
        ck.count("protocol_round_trips", o["pairs"]); ck.count("value_bytes", o["bytes"]); ck.maxof("longest_value", o["maxlen"])
    run_model(ck, "c07", "BF", tier(5, 300), [["--cas", "yes"], ["--sixpack", "no"]])
