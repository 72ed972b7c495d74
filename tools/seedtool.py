#!/usr/bin/env python3
"""seedtool.py make ID PROP file old new needs breaks   (library use: make(...))
   seedtool.py try ID            apply, build, stable tests, demo (must fail), check (prints verdict), restore, demo (must pass)"""
import sys, os, subprocess, json, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd="/repo", t=900):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
def make(id, prop, edits, needs, breaks, demo, files=None):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert sh("git status --porcelain")[1].strip() == "", "repo dirty"
    try:
        for f, old, new in edits:
            p = os.path.join("/repo/src", f); s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff")[1]
    finally:
        sh("git checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(demo); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, c in (files or {}).items():
        open(os.path.join(d, n), "w").write(c)
def attempt(id, checks=None, full=True):
    d = os.path.join(ROOT, "seeded", id); prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = tempfile.mkdtemp(); dd = os.path.join(t, "demo"); shutil.copytree(d, dd)
    for f in ("patch.diff", "meta.json"): os.unlink(os.path.join(dd, f))
    res = {}
    try:
        rc, o = sh(f"git apply {d}/patch.diff"); assert rc == 0, o
        if full:
            rc, o = sh("bash /opt/vp/build.sh"); res["build"] = rc
            if rc: print(o[-2000:])
            rc, o = sh(f"bash /opt/vp/test.sh {t}/o.json"); res["tests"] = open(f"{t}/o.json").read()[:200]
            rc, o = sh(f"bash {dd}/demo.sh", t=300); res["demo_patched"] = rc; print(o[-600:])
        for c in (checks or [prop]):
            rc, o = sh(f"VERIF_SEED=1 python3 check.py {c}", cwd=ROOT); res["check_" + c] = rc
            print("\n".join(l[:400] for l in o.splitlines()[-6:]))
    finally:
        sh("git checkout -- .")
        if full:
            sh("bash /opt/vp/build.sh"); rc, o = sh(f"bash {dd}/demo.sh", t=300); res["demo_clean"] = rc
            if rc: print(o[-600:])
        shutil.rmtree(t)
    print(id, res)
    return res
if __name__ == "__main__":
    for i in sys.argv[2:]:
        attempt(i, full=sys.argv[1] == "try")
