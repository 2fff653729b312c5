#!/usr/bin/env python3
"""confx.py <qualified name>: verdict at every inlining level (development aid)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
sys.setrecursionlimit(20000)
import load, conform
R, P = load.load_ref(), load.load(); load.align(R, P)
X = conform.Conform(R, P)
for k in X.body_fns():
    if R.funcs[k]['q'] == sys.argv[1]:
        for m, op in ((0, X.opaque0), (3, X.opaque0 - X.observers()), (1, X.opaque0 - X.small()), (2, X.virt)):
            print(m, *map(str, X.at(k, m, op)))
            if len(sys.argv) > 2:
                for side in (X.R, X.C):
                    print('---', side.tag)
                    try:
                        for p in side.summary(k, op, m)[0]:
                            print('  PATH', conform.showout(p.out))
                            for a, v in p.lits.items(): print('      ', 'if' if v else 'if not', conform.sh(a))
                            def evs(l, ind):
                                for e in l:
                                    print(ind, e[0], conform.showev([e]))
                                    if e[1] == 'loop':
                                        for b in e[5].bodies:
                                            print(ind, '  BODY', [(conform.sh(a), v) for a, v in b.lits.items()])
                                            for kk, (r, v) in b.store.items(): print(ind, '     ', conform.sh(kk), ':=', conform.show(v))
                                            evs(b.events, ind + '     ')
                            evs(p.events, '      ')
                            for kk, (r, v) in p.store.items(): print('      ', conform.sh(kk), ':=', conform.sh(v))
                    except Exception as ex: print(ex)
