from connjob import *

def run(ck):
    ck.rule = ("clients that connect, send anything or nothing (partial requests, floods they do not read, background commands, monitors, all protocols) and leave in any way, next to well-behaved tagged clients; after each round descriptors, threads, "
               "connection counters and (repeated rounds) allocated bytes must be back; limits probed one by one and by storms; a case is one connection; distinct = (behaviour, way of leaving) and limit situations")
    for o in pmap(conn_job, [(i, tier(14, 900)) for i in range(8)], ck=ck):
        ck.case(n=o["conns"] + o["served"] + o["refused"])
        for x in o["kinds"]: ck.distinct.add(x)
        for k in ("conns", "rounds", "good", "served", "refused", "membursts", "bursts"): ck.count(k, o[k])
        ck.maxof("most_connections_at_once", o["held"])
