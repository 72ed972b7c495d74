from persist import *

def run(ck):
    ck.rule = ("snapshots of random contents saved and loaded by differently configured servers on controlled clocks, compared entry by entry (value, flags, remaining ms) with the model, chained over generations, and snapshots taken under concurrent writers; "
               "a case is one saved snapshot compared after loading; distinct = (configuration, save and load variant, size)")
    def job(kind, i, s): return (kind, {"rt": rt_job, "conc": conc_job, "table": big_table_job}[kind](*((i, s) if kind != "table" else (i,) if not THOROUGH else (i, 900000))))
    for kind, o in pmap(job, [("rt", i, tier(17, 900)) for i in range(6)] + [("conc", i, tier(17, 900)) for i in range(2)] + [("table", 0, 0)], ck=ck):
        if kind == "table":
            ck.case(n=o["trips"]); ck.count("big_table_entries", o["entries"])
            continue
        for x in o["kinds"]: ck.distinct.add(x)
        if kind == "rt":
            ck.case(n=o["trips"])
            for x in o["abandoned"]: ck.note_inconclusive(x[:300])
            for k in ("entries", "expired", "merged", "ops", "bytes", "slow_saves", "giants"): ck.count(k, o[k])
        else:
            ck.case(n=o["saves"])
            ck.count("concurrent_saves", o["saves"])
            for k in ("keys", "moved", "absent", "writes"): ck.count("concurrent_" + k, o[k])
    if THOROUGH:
        o = big_job(0)
        ck.case(n=o["trips"])
        ck.count("big_entries", o["entries"])
