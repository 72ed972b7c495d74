from engine import *
from srvparts import *
from waves import run_waves
from duel import run_duels

def engine_part(ck):
    m = tier(5, 60)
    plan = [(mode, hist * m, ops, n, *x) for mode, hist, ops, n, *x in [('cas', 200, 600, 6), ('seq', 80, 600, 2)]]
    run_seq(ck, "C", plan)

def run(ck):
    engine_part(ck)
    m = tier(1, 15)
    run_mt(ck, "C", [("cas", 10 * m, 100, 8, 4, 4), ("cas", 8 * m, 60, 6, 7, 2)])
    run_duels(ck, ["cas"], tier(3, 150), jobs=3)
    t = tier(5, 400)
    for o in pmap(cas_job, [(i, t) for i in range(3)], workers=3, ck=ck):
        ck.case(n=o["contended"])
        for x in o["winners"]: ck.distinct.add(("winners", x))
        for k in ("stores", "contended", "created"): ck.count("cas_" + k, o[k])
    run_model(ck, "c04", "PK", t, [["--cas", "yes"], ["--cas", "yes", "--shards", "1"]], genkw={"casp": .8, "only": {"set", "gets", "mgets", "del", "incr", "append", "expire", "touch", "flush", "prepend", "get"}}, batches=40)
    run_waves(ck, "c04", "LRC", [(["--cas", "yes"], t, dict(threads=4, clients=(2, 4, 6), opkinds=["cas", "cas", "gets", "gets", "set", "del", "expire", "append"], shards=sh)) for sh in (1, 64)], "")
