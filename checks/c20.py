from persist import *
LEVEL = "fault_enumeration"

def run(ck):
    ck.rule = ("every file call of a save (normal and fast, with and without a previous snapshot, on demand and at termination) failed with ENOSPC/EIO/EINTR/EDQUOT/EAGAIN, failed for good, cut short, or the process killed before or in the middle of it; "
               "several saves to one path at once, with faults, kills and SIGTERM among them; a case is one fault followed by reading the snapshot path with another server; distinct = (call, fault, mode)")
    def job(kind, i, s): return (kind, (fault_job if kind == "fault" else together_job)(i, s))
    for kind, o in pmap(job, [("fault", i, tier(20, 900)) for i in range(8)] + [("together", i, tier(9, 600)) for i in range(4)], ck=ck):
        for x in o["kinds"]: ck.distinct.add(x)
        if kind == "together":
            ck.case(n=o["together"])
            ck.count("saves_at_once", o["together"])
            for k in ("ok", "failed", "loads", "kills", "terms", "overtakes"): ck.count("at_once_" + k, o[k])
            continue
        ck.case(n=o["faults"] + o["sigterm"])
        for s in o["samples"][:1]: ck.sample(s)
        ck.maxof("calls_per_save", o["points"])
        for k in ("kills", "hits", "saves_ok", "saves_failed", "sigterm", "complete_rounds", "loads"): ck.count(k, o[k])
