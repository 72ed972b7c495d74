#!/usr/bin/env python3
"""Regenerates the 'fixed' list of known_findings.json from the fix: commits in /repo."""
import json, subprocess
MAP = [("failed entry allocation","C11"),("clear zeroed","C11"),("entry memory size drifted","C10"),("total counted stores","C10"),
("entry iteration accepted","C08"),("batch lost the batch","C12"),("cleanup after a failed shard","C11"),("visit an entry twice","C08"),
("bucket distance overflowed","C01"),("saturated bucket distances","C01"),("entry accessors used the batch","C12"),
("storage commands with a wrong argument","C13"),("long zero padded","C13"),("verbosity","C13"),("stray zero byte","C16"),("control bytes in an error","C16"),
("first line split","C15"),("connection map grew","C24"),("empty or padded RESP","C13"),("empty string was accepted","C03"),("http request without headers","C15"),
("http 405","C17"),("last http query option","C17"),("monitor line","C26"),("postgres message length","C13"),("doubled quote","C27"),("escape string","C27"),
("parameter twice","C27"),("password was requested again","C18"),("startup message leaked","C24"),("removing the first argument","C13"),
("postgres extended query","C27"),("SWEEP ASYNC FAST","C17"),("EXAT and PXAT","C05"),("EXPIRE far in the past","C05"),("decr below zero","C17"),
("DEBUG POPULATE","C13"),("evict and sixpack flags","C28"),("noreply","C16"),("does not read its replies","C29"),
("failures to create a thread","C24"),("expiring at the moment of its load","C19"),("concurrent saves","C20"),("larger than two gigabytes","C19"),("glob match","C25"),("does not read its stream","C29"),("ignored the memory limit","C06"),("--keysixpack","C28"),("surrogate pairs","C27"),("statement name executed","C13"),("data block of a refused","C16"),("work path leaked","C24"),("after the MONITOR reply","C26"),("pings arrived split","C26"),("Postgres portal executed","C27"),("empty Postgres statement","C27"),("simple Postgres query","C27"),("quickack","C28"),("no IPv4 address","C28"),("unix socket path","C28"),("memory limit beyond","C28"),("repeated ASYNC","C29"),("ran out of file descriptors","C29"),("behind white space","C03"),("SYNC after DELAY","C23"),("comment of the save lock","C20")]
# what turned out to be the real failure behind a commit whose subject says something else
REAL = {"concurrent saves": "concurrent saves: a slow save replaced the newer snapshot of a save that began after it and had already succeeded (the commit subject blames the work file, whose random names practically never coincide)"}
out = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],stdout=subprocess.PIPE,text=True).stdout
fixed = []
for l in out.splitlines():
    h, s = l.split(" ",1)
    if not s.startswith("fix:"): continue
    m = [p for k,p in MAP if k in s]
    assert m, s
    t = next((v for k, v in REAL.items() if k in s), s[5:])
    fixed.append(f"fixed: property={m[0]} {h} {t}")
p = "/verif/known_findings.json"; d = json.load(open(p)); d["fixed"] = fixed
json.dump(d, open(p,"w"), indent=1); print(len(fixed))
