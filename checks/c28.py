from confjob import *

def run(ck):
    ck.rule = ("the program is started with valid, boundary and invalid options; refused ones must end with an error and no effect, and for accepted ones a probe observes the behaviour the option documents (sockets and their settings, threads, memory, limits, sweeping, "
               "eviction, password, files); one generated script of commands in all protocols must give the same replies under random combinations of the options that only affect performance; a case is one probe, refusal or reply; distinct = option values and pairs of them")
    n = tier(1, 8)
    jobs = [(p.__name__, i, 0) for p in PROBES for i in range(n)] + [("refusals", i, tier(12, 300)) for i in range(3)] + [("equiv", i, tier(12, 400)) for i in range(4)]
    jobs.sort(key=lambda j: j[0] != "p_counts")
    for o in pmap(conf_job, jobs, ck=ck):
        ck.case(n=o["refusals"] + o["probes"] + o["replies"])
        for x in o["kinds"] | o["pairs"]: ck.distinct.add(x)
        for k in ("refusals", "probes", "replies", "scripts"): ck.count(k, o[k])
        ck.count("option pairs", len(o["pairs"]))
