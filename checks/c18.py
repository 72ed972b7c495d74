from authjob import *

def run(ck):
    ck.rule = ("unauthenticated streams (the whole generator of C13/C17, crafted wrong credentials) next to an authenticated observer that compares content, counters and files, scans replies for secrets, and checks that the right password opens exactly one connection; "
               "a case is one stream; distinct = (protocol, kind, reply)")
    for o in pmap(auth_job, [(i, tier(20, 600)) for i in range(8)], ck=ck):
        ck.case(n=o["streams"] + o["positive"])
        for x in o["kinds"]: ck.distinct.add(x)
        for k in ("crafted", "positive", "digests", "replybytes", "servers"): ck.count(k, o[k])
