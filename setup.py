#!/usr/bin/env python3
"""Builds every harness once (the checks rebuild by themselves whenever the sources change)."""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "lib"))
import build
from concurrent.futures import ThreadPoolExecutor
jobs = [lambda: build.server("asan"), lambda: build.server("tsan"), lambda: build.engine("eng_seq.c", "asan"), lambda: build.engine("eng_big.c", "asan"),
        lambda: build.engine("eng_mt.c", "asan"), lambda: build.engine("eng_mt.c", "tsan")]
with ThreadPoolExecutor(3) as ex:
    for f in [ex.submit(j) for j in jobs]:
        print(f.result())
