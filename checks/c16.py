from framing import *

def run(ck):
    ck.rule = ("every request of a pipeline is followed by a request with a unique answer; strict parsers demand one well-formed reply (none for noreply, one error for a malformed one) in between; "
               "a case is one request; distinct = (protocol, command, reply shape)")
    for o in pmap(frame_job, [(i, tier(19, 600)) for i in range(8)], ck=ck):
        ck.case(n=o["reqs"])
        for x in o["kinds"]: ck.distinct.add(x)
        for k in ("replies", "conns", "closers", "http", "piled", "before_end"): ck.count(k, o[k])
