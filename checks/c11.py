from engine import *
LEVEL = "fault_enumeration"

def run(ck):
    n = tier(6, 60)
    plan = []
    for mode in ("fault", "seq"):
        plan.append((mode, tier(3, 4), tier(400, 500), n, "--fault", "--maxfaults", tier(300, 1500)))
    plan.append(("batch", 2, 150, n // 2, "--fault", "--maxfaults", tier(150, 600)))
    plan.append(("grow", 1, tier(1500, 3000), 2, "--fault", "--maxfaults", tier(60, 200)))
    plan.append(("shrink", 1, 800, 2, "--fault", "--maxfaults", tier(60, 200)))
    ck.rule = ("every seeded history is first run without faults, counting its allocations; it is then re-run once per allocation "
               "index (all of the first 40, then evenly spaced) and fault kind (fails once, from then on, 2 or 5 times); "
               "a case is one such run; distinct non-trivial as in C01")
    run_seq(ck, "O", plan)
