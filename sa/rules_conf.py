"""Relational conformance: every function in a property's scope must have the same guarded-effect summary as in the reviewed reference.

The reference (ref/ref.json.xz) is the intermediate representation of the reviewed tree, on which the property was established by
reading the code; the rule carries the property over to the current source.  Equality is semantic (all paths, guards, results, state
updates and calls in dependency order), not textual, and three-valued: only a definite difference, with a witness valuation, is a
violation."""
import fnmatch, json, time
import load, conform
from load import AnalysisError


def conf(P):
    if not hasattr(P, '_conform'):
        R = load.load_ref()
        P._conform = conform.Conform(R, P)
    return P._conform


def in_scope(X, pats):
    pos = [p for p in pats if p[0] != '!']
    neg = [p[1:] for p in pats if p[0] == '!']
    out = []
    for k in X.body_fns() if not hasattr(X, '_bf') else X._bf:
        f = X.ref.funcs[k]
        q, fl = f['q'], f.get('file', '')

        def hit(p):
            if p.startswith('file:'):
                return fnmatch.fnmatchcase(fl, p[5:])
            return fnmatch.fnmatchcase(q, p)
        if any(hit(p) for p in pos) and not any(hit(p) for p in neg):
            out.append(k)
    return sorted(out)


def scope_rule(pats, text, name='behaviour preserved', floor=1):
    def rule(ctx):
        X = conf(ctx.P)
        ctx.rule(name, text + ' [each function in scope: guarded-effect summary of the current source equals the one of the reviewed reference]')
        X._bf = X.body_fns()
        ks = in_scope(X, pats)
        if len(ks) < floor:
            raise AnalysisError('scope of %s matches %d functions, expected at least %d' % (ctx.pid, len(ks), floor))
        npaths = 0
        classes = set()
        t0 = time.time()
        for k in ks:
            f = X.cur.funcs[k]
            q = f['q']
            where = '%s:%s' % (f.get('file', '?'), f.get('line', '?'))
            if f.get('cls'):
                classes.add(f['cls'])
            ctx.functions.add(q)
            key = q + '(' + ','.join(f.get('pt') or []) + ')'
            try:
                v, d = X.verdict(k)
            except Exception as ex:      # an engine limitation is never an alarm
                v, d = 'und', '%s: %s' % (type(ex).__name__, ex)
            if v == 'eq':
                try:
                    if time.time() - t0 < 60 or ctx.tier == 'thorough':
                        npaths += len(X.C.summary(k, X.opaque0, 0)[0])
                except Exception:
                    pass
                ctx.ok(key, where)
            elif v == 'diff':
                ctx.bad(key, where, str(d))
            else:
                ctx.undecided(key, where, d)
        for c in sorted(classes):
            for a, b in X.rebound(c):
                fa, fb = X.ref.funcs.get(a), X.cur.funcs.get(b)
                key = '%s now uses %s for %s' % (c, fb['q'] if fb else b, fa['q'] if fa else a)
                try:
                    v, d = X.verdict(a, b) if fa and fb and 'body' in fa and 'body' in fb else ('und', 'no body')
                except Exception as ex:
                    v, d = 'und', str(ex)
                where = '%s:%s' % (fb.get('file', '?'), fb.get('line', '?')) if fb else '?'
                ctx.ob({'eq': True, 'diff': False}.get(v), key, where, str(d))
        ctx.paths = getattr(ctx, 'paths', 0) + npaths
    return rule
