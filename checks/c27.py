from pgjob import *

def run(ck):
    ck.rule = ("sessions send generated message sequences (statements whose text and parameters are generated together with the arguments they denote, named and unnamed statements and portals re-used and redefined, simple queries, errors, skipped messages) "
               "under split and refused socket reads and writes; every reply is compared with a model of the protocol and of the stored data, and the effects are read back over RESP; a case is one message; distinct = message triples seen")
    for o in pmap(pg_job, [(i, tier(18, 900)) for i in range(8)], ck=ck):
        ck.case(n=o["messages"])
        for x in o["kinds"]: ck.distinct.add(x)
        for k in ("messages", "replies", "effects", "sessions"): ck.count(k, o[k])
