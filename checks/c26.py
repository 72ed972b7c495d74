from monjob import *

def run(ck):
    ck.rule = ("clients of every protocol issue uniquely numbered commands with arbitrary bytes while monitors watch, come, go, or read late, under injected short and refused socket writes and delays; the lines each monitor received are decoded and "
               "compared with the commands issued, per client in order and exactly once; a case is one line; distinct = situations")
    for o in pmap(mon_job, [(i, tier(18, 900)) for i in range(8)], ck=ck):
        ck.case(n=o["lines"] + o["handshakes"] + o["quoted"] + o["secretlines"])
        for x in o["kinds"]: ck.distinct.add(x)
        for k in ("lines", "commands", "visits", "handshakes", "quoted", "secretlines", "rounds"): ck.count(k, o[k])
