from engine import *
from srvparts import *
from waves import run_waves
from duel import run_duels

def run(ck):
    m = tier(1, 20)
    ck.rule = ("concurrent counter/append rounds (engine threads; client connections of four protocols with scheduling noise), waves of overlapping RMW pipelines searched for a linear order, "
               "and sequential operand edge cases against 64-bit arithmetic")
    run_mt(ck, "R", [("counter", 10 * m, 80, 20, 4, 4), ("pair", 6 * m, 60, 8, 4, 2)])
    run_duels(ck, ["incr", "append", "recount"], tier(3, 150))
    t = tier(6, 400)
    for o in pmap(rmw_job, [(i, t) for i in range(4)], workers=4, ck=ck):
        ck.case(n=o["rounds"])
        for x in o["shapes"]: ck.distinct.add(("rmw", x))
        for k in ("ops", "switches", "jitters"): ck.count("rmw_" + k, o[k])
    run_waves(ck, "c03", "LRC", [([], t, dict(threads=th, clients=(2, 4), opkinds=["incr", "decr", "append", "prepend", "get", "setn", "del"], shards=sh, ttl=False)) for th, sh in ((4, 1), (4, 64))], "")
    run_model(ck, "c03", "PBKFE", tier(5, 300), [["--cas", "yes"], []], genkw={"only": {"incr", "decr", "append", "prepend", "set", "get", "ttl", "gets"}, "ttlp": .2}, batches=40)
