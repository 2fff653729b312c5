#!/usr/bin/env python3
"""Runs the static rules of one property against /repo's current source.

usage: check.py <property id> [...]      exit 0: held   1: VIOLATION   2: the analysis itself failed"""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
if os.environ.get('PYTHONHASHSEED') != '0':       # the same run every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import load
from load import AnalysisError, VERIF
from engine import PathLimit

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Ctx:
    """Collects the obligations of one property. An obligation is discharged, violated or undecided."""

    def __init__(self, pid, prog, tier):
        self.pid, self.P, self.tier = pid, prog, tier
        self.discharged, self.viol, self.und = [], [], []
        self.functions, self.instances = set(), {}
        self.rules = {}
        self.cur = ''

    def rule(self, name, text):
        self.cur = name
        self.rules[name] = text
        self.instances.setdefault(name, 0)

    def ok(self, what, where=''):
        self.discharged.append((self.cur, what, where))
        self.instances[self.cur] += 1

    def bad(self, key, where, detail):
        """key: stable identity of the construct (used by the known-findings file)."""
        if not any(v['key'] == key and v['rule'] == self.cur for v in self.viol):
            self.viol.append({'rule': self.cur, 'key': key, 'where': where, 'detail': detail})
        self.instances[self.cur] += 1

    def undecided(self, what, where, why=''):
        self.und.append((self.cur, what, where, str(why)[:300]))
        self.instances[self.cur] += 1

    def ob(self, verdict, key, where, detail=''):
        if verdict is True:
            self.ok(key, where)
        elif verdict is False:
            self.bad(key, where, detail)
        else:
            self.undecided(key, where, detail)

    def seen(self, eng):
        self.functions |= eng.visited

    def guard(self, key, fn, *a, **k):
        """Run one obligation group; an engine limitation makes it undecided, never an alarm."""
        try:
            return fn(*a, **k)
        except AnalysisError:
            raise
        except PathLimit:
            self.undecided(key, '', 'path limit')
        except RecursionError:
            self.undecided(key, '', 'recursion limit')
        except Exception as ex:       # noqa
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            self.undecided(key, '', '%s: %s' % (type(ex).__name__, ex))

    def floor(self, rule, n):
        """Zero-instance protection: the rule must have met at least n instances."""
        if self.instances.get(rule, 0) < n:
            raise AnalysisError('rule %s matched %d instances, expected at least %d' % (rule, self.instances.get(rule, 0), n))


def rules_for(pid):
    import rules
    if pid not in rules.RULES:
        raise AnalysisError('no rules registered for ' + pid)
    return rules.RULES[pid]


def run(pid, prog):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(pid, prog, tier)
    level, fns = rules_for(pid)
    for f in fns:
        f(ctx)
    known = []
    if os.path.exists(KNOWN):
        known = [k for k in json.load(open(KNOWN))['findings'] if k.get('property') == pid and k.get('status') == 'known']
    new, old = [], []
    for v in ctx.viol:
        k = next((k for k in known if k['rule'] == v['rule'] and k['key'] == v['key']), None)
        (old if k else new).append((v, k))
    nob = len(ctx.discharged) + len(ctx.viol) + len(ctx.und)
    if nob == 0:
        raise AnalysisError('no obligations generated')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': nob, 'discharged': len(ctx.discharged), 'undecided': len(ctx.und),
            'known_findings': len(old), 'rule': ' | '.join('%s: %s' % kv for kv in ctx.rules.items()), 'instances_per_rule': ctx.instances,
            'functions_analysed': len(ctx.functions), 'function_names': sorted(ctx.functions)[:400],
            'translation_units': len(prog.tus), 'paths_summarised': getattr(ctx, 'paths', 0),
            'explanation': 'Static analysis of /repo/src: %d translation units parsed with clang, rules applied to resolved functions; '
                           'an obligation is one rule instance (function path set, call site, table row).' % len(prog.tus),
            'samples': [{'rule': r, 'obligation': w, 'where': l} for r, w, l in ctx.discharged[:: max(1, len(ctx.discharged) // 12)][:14]],
            'undecided_list': [{'rule': a, 'obligation': b, 'where': c, 'why': d} for a, b, c, d in ctx.und[:60]],
            'checker_cmd': 'python3 sa/check.py ' + pid,
            'trusted_base': ['clang 18 AST', 'sa/engine.py evaluator and sa/stdmodel.py library models'],
        },
        'assumptions': ['library models in sa/stdmodel.py', 'obligations listed as undecided are not claimed'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %d known, %d violations; %d functions; %.1fs' % (
        pid, nob, len(ctx.discharged), len(ctx.und), len(old), len(new), len(ctx.functions), time.time() - t0))
    if os.environ.get('SA_DEBUG'):
        for u in ctx.und:
            print('  undecided', u)
    for v, k in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, k.get('what', v['key'])))
    if new:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + '.txt')
        with open(p, 'w') as f:
            for v, _ in new:
                f.write('rule %s (%s)\n  construct: %s\n  at: %s\n  %s\n\n' % (v['rule'], ctx.rules.get(v['rule'], ''), v['key'], v['where'], v['detail']))
        for v, _ in new[:20]:
            print('  %s: [%s] %s -- %s' % (v['where'], v['rule'], v['key'], v['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0


def main():
    ids = sys.argv[1:]
    if ids == ['--setup']:
        load.load()
        print('extractor built, program parsed')
        return 0
    try:
        prog = load.load()
        prog.renamed = load.align(load.load_ref(), prog)
        if ids == ['all']:
            import rules
            ids = sorted(rules.RULES)
    except AnalysisError as ex:
        print('ANALYSIS-ERROR:', ex)
        return 2
    rc = 0
    for pid in ids:
        try:
            r = run(pid, prog)
        except AnalysisError as ex:
            print('ANALYSIS-ERROR: property=%s %s' % (pid, ex))
            r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if r != 1 else (1 if rc == 0 else rc)
    return rc


if __name__ == '__main__':
    sys.exit(main())
