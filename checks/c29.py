from stalljob import *

def run(ck):
    ck.rule = ("clients that send slowly or never finish a request, do not read, announce huge requests, hold background work (a disk or pipe that does not respond), monitor without reading, write one key without a pause, open connections without end or exhaust descriptors, on servers of 1 to 4 threads; "
               "probe clients of every protocol, connected before and during the attack on every thread, must get correct answers in time while the attacker stays stalled; a delay counts only when it repeats; a case is one answered probe request; distinct = attacks (and pairs of them) x threads")
    for o in pmap(stall_job, [(i, tier(15, 900)) for i in range(8)], ck=ck):
        ck.case(n=o["requests"])
        for x in o["kinds"]: ck.distinct.add(x)
        for k in ("stalls", "requests", "repeats"): ck.count(k, o[k])
        ck.count("slowest answer, ms (sum over workers)", o["slowest ms"])
