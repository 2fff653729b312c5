"""Escape analysis of exceptions: a kind of error that a function used to handle is still handled on the way to the user.

For every function the set of exception types that may leave it is computed as a fixpoint over the call graph (throw expressions minus
the handlers around them and around the calls that lead to them).  A function whose handler took care of a type in the reference, and
that now lets it pass, is a violation, unless a handler added to its callers takes care of it instead."""
from engine import STD_EXC
from rules_conf import conf, in_scope


class Escape:
    def __init__(self, P):
        self.P = P
        self.own, self.edges = {}, {}
        for k, f in P.funcs.items():
            if 'body' in f:
                self.own[k], self.edges[k] = set(), set()
                self.walk(k, f['body'], (), ())
                for i in f.get('inits') or ():
                    self.walk(k, i, (), ())
        self.esc = {k: set(v) for k, v in self.own.items()}
        self.callers = {}
        for k, es in self.edges.items():
            for t, hs in es:
                self.callers.setdefault(t, set()).add(k)
        todo = list(self.esc)
        while todo:
            t = todo.pop()
            for k in self.callers.get(t, ()):
                new = {x for u, hs in self.edges[k] if u == t for x in self.esc[t] if not self.caught(x, hs)} - self.esc[k]
                if new:
                    self.esc[k] |= new
                    todo.append(k)

    def targets(self, fn):
        r, todo = set(), [fn]
        while todo:
            x = todo.pop()
            if x in r:
                continue
            r.add(x)
            todo += [m['fn'] for m in self.P.overriders.get(x, [])]
        return {x for x in r if 'body' in self.P.funcs.get(x, {})}

    def caught(self, x, hs):
        for h in hs:
            if h is None or self.P.derives(x, h):
                return True
            for y in [x] + self.P.bases_of(x):
                while y:
                    if y == h:
                        return True
                    y = STD_EXC.get(y)
        return False

    def walk(self, k, n, hs, here):
        """hs: handlers around n; here: types the innermost handler being executed takes (for `throw;`)"""
        if isinstance(n, list):
            for x in n:
                self.walk(k, x, hs, here)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') == 'try':
            self.walk(k, n['b'], hs + tuple(c.get('t') for c in n['catches']), here)
            for c in n['catches']:
                self.walk(k, c['b'], hs, (c.get('t'),))
            return
        if n.get('k') == 'throw':
            t = n.get('tt')
            for x in (t,) if t and t != 'rethrow' else here:
                if x and not self.caught(x, hs):
                    self.own[k].add(x)
        if n.get('fn'):
            for t in self.targets(n['fn']):
                self.edges[k].add((t, hs))
        for v in n.values():
            if isinstance(v, (dict, list)):
                self.walk(k, v, hs, here)

    def handled(self, k):
        """types a handler of this very function takes care of"""
        return {x for t, hs in self.edges.get(k, ()) for x in self.esc[t] if hs and self.caught(x, hs)} - self.esc.get(k, set())


def of(P):
    if not hasattr(P, '_escape'):
        P._escape = Escape(P)
    return P._escape


def handlers_rule(pats):
    def rule(ctx):
        X = conf(ctx.P)
        ks = in_scope(X, pats)
        name = 'handled errors stay handled'
        R, C = of(X.ref), of(X.cur)
        todo = [(k, t) for k in ks for t in sorted(R.handled(k))]
        if not todo:
            return
        ctx.rule(name, 'each type of exception that a function of the reference handles does not leave that function now (fixpoint of escaping types over the call graph), '
                 'unless a handler added to its callers takes it')
        for k, t in todo:
            f = X.cur.funcs[k]
            where = '%s:%s' % (f.get('file', '?'), f.get('line', '?'))
            key = '%s handles %s' % (f['q'], t)
            if t not in C.esc.get(k, ()):
                ctx.ok(key, where)
                continue
            # passed on: taken by a handler that was put into a caller for it, or by one that was there before (or none)?
            seen, front, out = {k}, [k], False
            while front and not out:
                x = front.pop()
                if not C.callers.get(x):
                    out = True
                for c in C.callers.get(x, ()):
                    hs = [hs for u, hs in C.edges[c] if u == x]
                    if not all(C.caught(t, h) for h in hs):
                        if c not in seen:
                            seen.add(c)
                            front.append(c)
                    elif all(R.caught(t, h) for u, h in R.edges.get(c, ()) if u == x) and any(u == x for u, h in R.edges.get(c, ())):
                        out = True
            if out:
                ctx.bad('%s no longer handles %s' % (f['q'], t), where, 'it passes on to handlers meant for other places, or to none')
            else:
                ctx.undecided(key, where, 'left to the callers')
    return rule
