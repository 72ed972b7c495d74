from globjob import *

def run(ck):
    ck.rule = ("KEYS and SCAN MATCH over every protocol against a reference (a pattern compiled to a regular expression, and a bit-parallel dynamic program for many stars): all keys and patterns over small alphabets, random bytes with patterns derived from the keys, "
               "and patterns on which backtracking explodes (processor time bounded); a case is one (pattern, key) decision")
    for o in pmap(glob_job, [(i, tier(20, 900)) for i in range(8)], ck=ck):
        ck.case(n=o["pairs"])
        for x in o["kinds"]: ck.distinct.add(x)
        ck.distinct_n += o["pats"]
        for k in ("hits", "pats", "pages", "cut"): ck.count({"hits": "matching_pairs", "pats": "patterns", "cut": "patterns_left_out_for_time"}.get(k, k), o[k])
        ck.maxof("max_cpu_ms_of_one_hard_pattern", o["maxcpu"])
