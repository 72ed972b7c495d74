from fuzz import *

def run(ck):
    ck.rule = ("mutated request streams on every protocol against servers built with AddressSanitizer+UBSan and MemorySanitizer, watched by a well-behaved client; "
               "distinct = (protocol, reply size class, first reply byte, short reply text)")
    for o in pmap(stale_job, [(i, tier(4, 120), "msan" if i == 3 else "asan") for i in range(8)], ck=ck):
        ck.case(n=o["streams"])
        for x in o["kinds"]: ck.distinct.add(("stale",) + x)
        ck.count("cut_streams_after_whole_ones", o["streams"])
    t = tier(22, 1200)
    for o in pmap(fuzz_job, [(i, t, "msan" if i in (3, 7) else "asan") for i in range(8)], ck=ck):
        ck.case(n=o["streams"])
        for x in o["kinds"]: ck.distinct.add(x)
        for k in ("bytes", "replies", "unclosed", "probes"): ck.count("fuzz_" + k, o[k])
        if o["why"]: ck.note_inconclusive("connection not closed after end of input: " + o["why"])
