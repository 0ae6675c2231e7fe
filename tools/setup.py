#!/usr/bin/env python3
"""Builds every program the checks use (they rebuild what has changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from spec import SPEC, SIMD
from check import variants
from concurrent.futures import ThreadPoolExecutor
todo = {}
for rs in SPEC.values():
    for r in rs:
        for v, a in variants(r):
            todo[(r["name"] or r["harness"][0], r["backend"], v)] = (r, v, a)
with ThreadPoolExecutor(2) as ex:
    for e in ex.map(lambda t: B.build(t[0]["harness"], t[0]["backend"], name=t[0]["name"], variant=t[1], arch=t[2]), todo.values()):
        print(e)
