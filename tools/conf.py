#!/usr/bin/env python3
"""Prints every function of VERIF_REPO whose behaviour is not shown equal to the reference (development aid)."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
sys.setrecursionlimit(20000)
import load, conform
R, P = load.load_ref(), load.load(); load.align(R, P)
X = conform.Conform(R, P)
for k in sorted(X.body_fns()):
    t = time.time()
    if X.unchanged(k):
        continue
    v, d = X.verdict(k)
    if v == 'eq' and '-a' not in sys.argv:
        continue
    print('%-5s %s  %s  [%.1fs]' % (v, R.funcs[k]['q'], str(d)[:300], time.time() - t))
for c in sorted(R.classes):
    for a, b in X.rebound(c):
        print('vtbl', X.verdict(a, b)[0], c, R.funcs[a]['q'], '->', P.funcs[b]['q'])
