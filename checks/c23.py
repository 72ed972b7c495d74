from flushjob import *

def run(ck):
    ck.rule = ("writers, readers and an observer on timestamps next to flushes of every spelling and protocol (injected delays in the flush threads), and delayed/background flushes watched on real time; "
               "a case is one read judged against the flushes before it; distinct = (flush request, configuration)")
    for o in pmap(flush_job, [(i, tier(20, 900)) for i in range(8)], ck=ck):
        ck.case(n=o["reads"] + o["polls"])
        for x in o["kinds"]: ck.distinct.add(x)
        for k in ("rounds", "flushes", "after", "missing", "delayed", "overlaps"): ck.count({"after": "hits_after_a_flush", "missing": "misses_explained_by_a_flush", "overlaps": "background_flushes_asked_for_during_another"}.get(k, k), o[k])
