#!/usr/bin/env python3
"""python3 check.py <property>            run the check of a property (VERIF_SEED, VERIF_TIER)
python3 check.py --replay <file>       re-run the check with the seed and tier of a recorded violation"""
import sys, os, importlib, traceback, json, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "checks"))

def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "--replay":
        r = json.load(open(a[1]))
        os.environ["VERIF_SEED"] = str(r["seed"])
        os.environ["VERIF_TIER"] = r["tier"]
        print("recorded:", r["message"][:2000])
        a = [r["property"]]
    pid = a[0].upper()
    import common
    ck = common.Check(pid)
    common.watchdog(ck)
    try:
        mod = importlib.import_module(pid.lower())
        ck.level = getattr(mod, "LEVEL", "exploration")
        mod.run(ck)
    except common.Violation as v:
        ck.violation(v.key, v.msg, v.replay)
    except Exception:
        traceback.print_exc()
        if not ck.viol:
            print(f"{pid}: harness error")
            return 2
    with ck.lock:
        ck.done, done = True, ck.done
    if done: time.sleep(60)     # the watchdog is ending this run
    return ck.finish()

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
