from segment import *

def run(ck):
    ck.rule = ("request streams (all protocols, well-formed, refused and mutated, background commands inside) sent as one segment and under every single cut, byte by byte, random cuts and next to other connections; "
               "a case is one comparison of complete reply streams; distinct = (protocol, kind of stream, sizes)")
    for o in pmap(seg_job, [(i, tier(19, 900)) for i in range(8)], ck=ck):
        ck.case(n=o["cmp"])
        for x in o["kinds"]: ck.distinct.add(x)
        for s in o["samples"][:1]: ck.sample(s)
        for k in ("streams", "segs", "bytes", "full", "multi", "big", "faults", "bigbg"): ck.count({"full": "streams_with_every_single_cut", "big": "long_streams", "faults": "socket_calls_cut_short", "bigbg": "streams_with_large_background_replies"}.get(k, k), o[k])
