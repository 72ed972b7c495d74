from persist import *
LEVEL = "fault_enumeration"

def run(ck):
    ck.rule = ("copies of small snapshots cut at every length and with every bit flipped, spliced, extended, random and crafted files with correct checksums around impossible lengths, read errors, and starts on damaged files; the loading server runs under ASan+UBSan; "
               "a case is one file loaded and its outcome compared with the original content; distinct = (damage, outcome, entries)")
    for o in pmap(damage_job, [(i, tier(20, 900)) for i in range(8)], ck=ck):
        ck.case(n=o["loads"])
        for x in o["kinds"]: ck.distinct.add(x)
        for s in o["samples"][:1]: ck.sample(s)
        for key, msg, f in o["known"]: ck.violation("damaged:" + key, msg, {"file": f})
        for k in ("snaps", "flips", "cuts", "mut", "crafted", "starts", "refused", "accepted_same", "blockwise", "faults"): ck.count({"mut": "mutations", "faults": "read_faults"}.get(k, k), o[k])
        ck.count("snapshots_enumerated_completely", o["full"])
