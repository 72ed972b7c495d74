from restart import *

def run(ck):
    ck.rule = ("writers on all protocols next to background work while SIGTERM or SIGINT arrives, several restart cycles with changing configuration and clocks, signals during the start, clients that connect during the load, and ends after everything or almost nothing has changed; "
               "a case is one termination or start; every key is compared with the states it had at or after its last write acknowledged before the signal; distinct = (kind, configuration)")
    for o in pmap(restart_job, [(i, tier(22, 900)) for i in range(8)], ck=ck):
        ck.case(n=o["cycles"] + o["loading"] + o["early"] + o["small"])
        for x in o["kinds"]: ck.distinct.add(x)
        for s in o["samples"][:1]: ck.sample(s)
        for k in ("cycles", "keys", "writes", "inflight", "late", "loading", "early", "small", "unknown"): ck.count(k, o[k])
