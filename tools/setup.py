#!/usr/bin/env python3
"""Builds every flavour and harness once, so that the checks find most of their objects in the cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, specs
need = {}
for s in specs.SPECS.values():
    for t in ('quick', 'thorough'):
        for j in s['jobs'](t):
            if not j.get('py'):
                need.setdefault(j.get('fl', 'plain'), set()).add(j['h'])
            for fl, h in j.get('also', []):
                need.setdefault(fl, set()).add(h)
    vbuild.aux(s.get('aux', []))
for fl, hs in sorted(need.items()):
    print(fl, sorted(vbuild.build(fl, sorted(hs)).values()))
