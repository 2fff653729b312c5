#!/usr/bin/env python3
"""Which functions can be summarised, and how fast (development aid)."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
sys.setrecursionlimit(20000)
import load, conform
R = load.load_ref(); P = load.load(); load.align(R, P)
X = conform.Conform(R, P)
n = 0
for k in sorted(X.body_fns()):
    t = time.time(); n += 1
    try:
        paths, syms, *_ = X.R.summary(k, X.opaque0, 0)
        bad = [x for x in syms if x[0] == 'unk']
        msg = ('EMPTY' if not paths else '') + (' UNK %s' % bad[:3] if bad else '')
    except Exception as ex:
        msg, paths = '%s %s' % (type(ex).__name__, str(ex)[:100]), ()
    dt = time.time() - t
    if msg or dt > 3:
        print('%s paths=%d %.1fs %s' % (R.funcs[k]['q'], len(paths), dt, msg))
print(n, 'functions')
