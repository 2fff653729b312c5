"""Relational summary analysis: is the behaviour of a function the same as in the reviewed reference program?

Both programs are summarised by the same evaluator (modular: functions present in both are opaque, everything else is
inlined), path summaries are brought to a canonical form (events ordered only where their mod/ref effects conflict, loops
as body summaries over their domain, final state instead of write order), and every pair of paths that can be taken
together must have the same outcome, events and final state.  A difference is reported only with a valuation of the leaf
terms that satisfies both path conditions; representation changes the analysis has no common vocabulary for are undecided."""
import random, re, time
from engine import Engine, PathLimit, St, Frame, _tclean
from terms import *
from terms import _h

STRUCT = {'lambda', 'lamtext', 'res', 'rec', 'vec', 'some', 'var', 'alt', 'tuple', 'new', 'addr', 'push', 'mset', 'mdel', 'variant', 'none', 'null', 'void', 'box', 'pair', 'cat'}
INTERP = {'int', 'bool', 'enum', 'str', 'flt', 'poly', 'op', 'trunc', 'eq', 'lt', 'not', 'and', 'or', 'ite', 'cat', 'typed', 'sym', 'this',
          'fld', 'idx', 'elem', 'ret', 'at', 'ver', 'lmap', 'mapped', 'brk', 'elem', 'outarg', 'post', 'vis', 'mvis', 'size', 'empty', 'tostr', 'has', 'some', 'none', 'null', 'void',
          'has_value', 'nn', 'const', 'box', 'call', 'hv', 'idxa', 'itera', 'global', 'fn', 'lambda', 'f2b', 'b2f', 'i2f', 'f2i', 'fop',
          'rec', 'vec', 'variant', 'holds', 'addr', 'begin', 'end', 'any', 'ia', 'B', 'L', 'W', 'throws', 'count', 'cls'} | STRUCT


VERS = {}


# library operations whose results are known to differ: replacing one by another is a change, not a change of vocabulary
DISTINCT = {('h', x) for x in ('lower_bound', 'upper_bound', 'equal_range', 'find', 'rfind', 'find_first_of', 'find_first_not_of', 'starts_with', 'ends_with',
                               'min', 'max', 'size', 'any', 'count', 'begin', 'end', 'push', 'pop', 'insert', 'erase', 'min_element', 'max_element')} | {
            ('fn', 'std::' + x) for x in ('stoi', 'stoll', 'stoull', 'stof', 'stod')}


COMMUTE = 'calls on elements of a container in another order'

from load import always_throws, has_kind


class Undecided(Exception):
    pass


def whole(t, eng):
    """a record all of whose fields are those of one object is that object"""
    fs = eng.plain(t[1]) if eng is not None else None
    if not fs or len(fs) != len(t[2]):
        return t
    b = None
    for n, v in t[2]:
        if v[0] != 'fld' or v[2] != n or b is not None and v[1] != b:
            return t
        b = v[1]
    return b


class CPath:
    __slots__ = ('lits', 'events', 'out', 'store', 'raw', 'where', 'canon', 'eng', 'loops', 'pre')


def depth_of(lid):
    if isinstance(lid, str) and lid[:1] in 'LA':
        return 'E%d' % (lid.count('.') + 1) if lid[0] == 'L' else 'E1'
    return lid


class Canon:
    def __init__(self, side, path, level):
        self.side, self.p, self.level, self.memo = side, path, level, {}
        self.busy = set()
        self.eng = None

    def __call__(self, t):
        if not isinstance(t, tuple):
            return t
        if not t:
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.c0(t)
            self.memo[t] = r
        return r

    def c0(self, t):
        h = t[0]
        if h in ('var', 'tmp', 'heap') and len(t) >= 2 and not isinstance(t[1], tuple):
            v = self.p.store.get(t)
            if v is None or t in self.busy:
                return ('local', re.sub(r'#\d+', '', str(t[1])) if h == 'var' else h)
            self.busy.add(t)
            r = ('box', self(v))
            self.busy.discard(t)
            return r
        if h == 'ret' and len(t) == 4:
            return ('ret', t[1], self.level.get((t[1], t[2]), 'x'), self(t[3]))
        if h == 'ver' and len(t) == 3:
            if t[1][0] == 'loop':
                return ('ver', depth_of(t[1][1]), self(t[2]))
            return ('ver', self.level.get(t[1], 'x'), self(t[2]))
        if h == 'havoc':
            return ('hv', depth_of(t[1]), t[2])
        if h == 'idx_any':
            return ('idxa', depth_of(t[1]))
        if h == 'iter_any':
            d = self(t[1])
            return ('itera', d, ('W', rebind(self(t[2][1]), d)) if isinstance(t[2], tuple) else depth_of(t[2]))
        if h == 'elem' and len(t) == 3 and isinstance(t[2], tuple):
            d = self(t[1])
            return ('elem', d, ('W', rebind(self(t[2][1]), d)))
        if h == 'elem' and len(t) == 3:
            return ('elem', self(t[1]), depth_of(t[2]))
        if h == 'brk':
            return ('brk', self(t[1]), depth_of(t[2]))
        if h == 'lambda':
            return self.lam(t)
        if h == 'at' and len(t) == 3 and t[2][0] == 'poly' and len(t[2][1]) == 2:
            d = dict(t[2][1])
            k = d.pop((), None)
            f = list(d)[0]
            if k is not None and k > 0 and list(d.values()) == [1] and len(f) == 1 and f[0][0] == 'idx_any':
                return self(('elem', ('call', 'drop', t[1], I(k)), f[0][1]))
        if h == 'ptradd':
            return ('addr', self(('idx', t[1], t[2])))
        if h in ('any', 'count') and len(t) == 3:
            d = self(t[1])
            return (h, d, rebind(self(t[2]), d))
        if h == 'mapped' and len(t) == 4:
            d = self(t[2])
            return (h, self(t[1]), d, rebind(self(t[3]), d))
        if h == 'rec' and len(t) == 3:
            return whole(('rec', t[1], tuple((n, self(v)) for n, v in t[2])), self.eng)
        r = tuple(self(x) if isinstance(x, tuple) else x for x in t)
        if r != t and isinstance(h, str):
            r = renorm(r)
        return r


    def lam(self, t):
        """a function value: its results as terms over its parameters; when it is not a plain expression, its text"""
        e = self.eng
        if e is None or t[1] not in e.lams or t in self.busy:
            return ('lambda',)
        node = e.lams[t[1]][0]
        self.busy.add(t)
        try:
            outs = []
            for b in node['bodies']:
                pt = tuple(p.get('t') for p in b['params'])
                st = St()
                st.store.update({k: v for k, v in self.p.store.items()})
                st.vers = dict(self.p.vers) if getattr(self.p, 'vers', None) else st.vers
                args = [('sym', 'larg%d' % i) for i in range(len(pt))]
                locs = [e.tmp(st, a) if p.get('ref') else None for a, p in zip(args, b['params'])]
                one = dict(node, bodies=[b])
                e.lams['$lam'] = (one, e.lams[t[1]][1])
                rs = e.call_lambda(('lambda', '$lam', t[2]), args, locs, st, Frame(7, None, {'q': '<lambda>', 'file': '?'}, ()), {'line': 0, 't': ''}, None)
                if len(rs) != 1 or rs[0][0].events or rs[0][1] is None or rs[0][0].lits:
                    raise Undecided('lambda')
                s, r = rs[0]
                v = e.read(s, r[1]) if r[0] == 'L' else r[1]
                C = Canon(self.side, s, self.level)
                C.eng = e
                C.busy |= self.busy
                outs.append((pt, ('res', C(v))))
            return ('lambda', tuple(sorted(outs, key=repr)))
        except (PathLimit, RecursionError, Undecided, KeyError, IndexError, AttributeError):
            return ('lamtext', hash_text(strip(node.get('bodies'))))
        finally:
            self.busy.discard(t)
            e.lams.pop('$lam', None)


def hash_text(x):
    import hashlib, json
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def rebind(t, dom):
    """the bound element of any(dom, .) is anonymous"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'elem' and len(t) == 3 and t[1] == dom:
        return ('elem', dom, 'B')
    if t[0] == 'rec' and len(t) == 3:
        return ('rec', t[1], tuple((n, rebind(v, dom)) for n, v in t[2]))
    return tuple(rebind(x, dom) if isinstance(x, tuple) else x for x in t)


class Side:
    def __init__(self, P, mr, tag):
        self.P, self.mr, self.tag = P, mr, tag
        self.cache = {}
        self.retpath = {}

    def summary(self, fid, opaque, mode, max_paths=500):
        k = (fid, mode)
        if k not in self.cache:
            try:
                self.cache[k] = self._summary(fid, opaque, max_paths)
            except (PathLimit, RecursionError) as ex:
                self.cache[k] = Undecided('%s: %s' % (self.tag, type(ex).__name__))
            except Undecided as ex:
                self.cache[k] = ex
        r = self.cache[k]
        if isinstance(r, Exception):
            raise r
        return r

    def _summary(self, fid, opaque, max_paths):
        f = self.P.funcs[fid]
        e = Engine(self.P, noinline_pred=lambda q, n: n.get('fn') in opaque, max_paths=max_paths)
        e.mr, e.loopx, e.retpath = self.mr, True, self.retpath
        e.lossy_at = max_paths * 2
        e.budget = 30000
        paths = e.run(f)
        out = []
        for p in paths:
            c = self.canon(e, p)
            if c is not None:
                out.append(c)
        syms = set()
        for c in out:
            for t in c.lits:
                collect(t, syms)
            collect_events(c.events, syms)
            for k, (raw, v) in c.store.items():
                collect(k, syms)
                collect(v, syms)
            collect(c.out, syms)
        return out, syms, e.visited, dict(e.unmodelled), (e.ambiguous, len(e.elemw))

    # -- effects ------------------------------------------------------------------------------------
    def effect(self, ev):
        if ev.kind == 'call' and ev.name.startswith('std::condition_variable') and ev.name.split('::')[-1].startswith('notify'):
            return {'$cv'}, set()
        if ev.kind == 'call':
            return self.mr.info_q(ev.name)
        if ev.kind == 'out':
            return {'$out'}, set()
        if ev.kind in ('lock', 'unlock'):
            return {'*'}, {'*'}
        if ev.kind == 'loop':
            m, r = set(), set()
            for lits, body, upd in ev.args:
                for b in body:
                    if b.kind in ('write', 'mut'):
                        m.add(b.name)
                        continue
                    a, c = self.effect(b)
                    m |= a
                    r |= c
                for loc, v, *_ in upd or ():
                    r |= fields_in(v)
            return m, r
        return {ev.name}, set()

    @staticmethod
    def dependent(a, b):
        (m1, r1), (m2, r2) = a, b
        if '*' in m1 or '*' in m2:
            return m1 != {'$cv'} and m2 != {'$cv'}      # waking a waiter commutes with releasing the lock
        return bool(m1 & (m2 | r2)) or bool(m2 & r1)

    def levels(self, events, base, off=0):
        """Foata levels. base: (list of (level, effect) before, counts per callee, level map)"""
        prev, cnt, lev = list(base[0]), dict(base[1]), dict(base[2])
        res = []
        for ev in events:
            if ev.kind in ('write', 'mut'):
                continue
            eff = self.effect(ev)
            dep = [(x, nm) for x, e2, nm in prev if self.dependent(e2, eff)]
            l = 1 + max([x for x, _ in dep], default=-1)
            if ev.kind == 'call':
                n = cnt.get(ev.name, 0)
                cnt[ev.name] = n + 1
                # an observer's answer is identified by the modifying events before it, not by its position
                lev[(ev.name, n)] = l + off if eff[0] else 'v%d' % VERS.setdefault(tuple(sorted(dep)), len(VERS))
            if eff[0]:
                prev.append((l, eff, ev.name if ev.kind == 'call' else ev.kind))
            res.append((l, eff, ev))
        return res, (prev, cnt, lev)

    def canon(self, e, p):
        c = CPath()
        res, base = self.levels(merge_out(p.events), ([], {}, {}))
        C = Canon(self, p, base[2])
        C.eng = e
        c.canon, c.eng, c.raw = C, e, p
        c.lits = {}
        for a, v in p.lits.items():
            a2 = C(a)
            while a2[0] == 'not':
                a2, v = a2[1], not v
            if a2[0] == 'bool':
                if a2[1] != v:
                    return None
                continue
            if c.lits.get(a2, v) != v:
                return None
            c.lits[a2] = v
        c.loops = []
        c.events = self.cevents(res, C, p, e, base, c.loops, list(p.lits.items()), 0, frozenset())
        c.store = {}
        for k, v in p.store.items():
            if not e.local(k) and e.root(k)[0] not in ('ret', 'const'):
                v2, k2 = C(v), C(k)
                if v2 != k2:
                    c.store[k2] = (k, v2)
        o = p.out
        if o[0] == 'return':
            c.out = ('return', C(o[1]))
        elif o[0] == 'throw':
            c.out = ('throw', exc_type(o))
        else:
            c.out = (o[0],)
        w = None
        for x in o[1:]:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and '/' in x[0]:
                w = x
        c.where = w
        return c

    def cevents(self, res, C, p, e, base, loops, seq, off, known):
        def before(n):
            # atoms decided before the loop was entered
            out = set(known)
            for a, v in seq[:max(0, n - off)]:
                a = C(a)
                while a[0] == 'not':
                    a = a[1]
                out.add(a)
            return frozenset(out)
        out = []
        cnt = {}
        for l, (mod, ref), ev in res:
            if ev.kind == 'call':
                cnt[ev.name] = cnt.get(ev.name, 0) + 1
                if not mod:
                    continue
                out.append((l, 'call', ev.name, C(ev.recv) if ev.recv is not None else None, tuple(C(a) for a in ev.args)))
            elif ev.kind == 'loop':
                bodies = []
                kn = before(ev.nlit)
                mods, pre, keys = (), {}, {}
                for lits, body, upd in ev.args:
                    if lits == ('init',):
                        keys = {m: lkey(C, e, m, pv) for m, _, pv in upd}
                        mods = tuple(sorted(((keys[m], C(v)) for m, v, _ in upd), key=repr))
                        pre = {keys[m]: C(v) for m, _, v in upd}
                for lits, body, upd in ev.args:
                    if lits == ('init',):
                        continue
                    # inner scope: calls numbered after the outer ones that precede the loop
                    r2, b2 = self.levels(merge_out(body), ([], cnt, {k: v for k, v in base[2].items() if k[1] < cnt.get(k[0], 0)}), 1000 * (ev.name.rstrip('d').count('.') + 1))
                    C2 = Canon(self, p, b2[2])
                    C2.eng = e
                    lm, bad = {}, False
                    for a, v in lits:
                        a2 = C2(a)
                        while a2[0] == 'not':
                            a2, v = a2[1], not v
                        if a2[0] == 'bool':
                            bad |= a2[1] != v
                        elif lm.get(a2, v) != v:
                            bad = True
                        else:
                            lm[a2] = v
                    if bad:
                        continue
                    b = CPath()
                    b.lits, b.loops, b.canon, b.eng, b.raw, b.where = lm, [], C2, e, p, None
                    b.events = self.cevents(r2, C2, p, e, b2, b.loops, list(lits), ev.nlit, kn)
                    b.store = {('upd', keys[m]): (m, C2(v)) for m, v in upd or ()}
                    b.out = ('iter',)
                    b.pre = pre
                    bodies.append(b)
                for m, v, _ in [x for l2, _, u2 in ev.args if l2 == ('init',) for x in u2]:
                    if v[0] == 'undef' and self.unread(ev, p, m, v):
                        # no value of this variable passes from one iteration to the next
                        k = keys[m]
                        mods = tuple(x for x in mods if x[0] != k)
                        for b in bodies:
                            b.store.pop(('upd', k), None)
                shape = (ev.name[-1:] == 'd', ev.recv is not None, tuple(m for m, _ in mods if m[:2] == 'v:'))
                dep = ev.name.rstrip('d').count('.') + 1
                lp = Loop(shape, C(ev.recv) if ev.recv is not None else None, mods, bodies)
                lp.depth, lp.known = dep, kn
                loops.append(lp)
                out.append((l, 'loop', shape, lp.dom, tuple(v for m, v in mods if m[:2] == 'v:'), lp))
            elif ev.kind == 'out':
                out.append((l, 'out', C(ev.recv) if isinstance(ev.recv, tuple) else ev.recv, None, tuple(C(a) for a in ev.args)))
            else:
                out.append((l, ev.kind, ev.name, None, tuple(C(a) for a in ev.args if isinstance(a, tuple))))
        return out


    def unread(self, ev, p, m, v):
        pv = [x[2] for l2, _, u2 in ev.args if l2 == ('init',) for x in u2 if x[0] == m][0]

        def has(t):
            return isinstance(t, tuple) and any(y == pv for y in subterms(t))

        def evs(l):
            for e in l:
                if e.recv is not None and has(e.recv):
                    return True
                if e.kind == 'loop':
                    for lits, body, upd in e.args:
                        if lits == ('init',):
                            if e is not ev and any(has(x[1]) for x in upd):
                                return True
                            continue
                        if any(has(a) for a, _ in lits) or any(has(x[1]) for x in upd or ()) or evs(body):
                            return True
                elif any(has(a) for a in e.args if isinstance(a, tuple)):
                    return True
            return False
        return not (any(has(a) for a in p.lits) or any(has(x) for x in p.out if isinstance(x, tuple)) or any(has(x) for k, x in p.store.items() if k != m and self.live(k)) or evs(p.events))

    @staticmethod
    def live(k):
        return k[0] != 'var'


class Loop:
    def __init__(self, shape, dom, mods, bodies):
        self.shape, self.dom, self.mods, self.bodies = shape, dom, mods, bodies

    def bkey(self):
        return repr(self.key()[3])

    def key(self):
        return (self.shape, self.dom, self.mods, tuple((tuple(sorted(b.lits.items(), key=repr)), ekey(b.events), b.out,
                tuple(sorted(((k, v[1]) for k, v in b.store.items()), key=repr))) for b in self.bodies))


def positional(lp):
    """does an iteration do something special for its position (the first, the last)?"""
    return any(y[0] == 'idxa' for b in lp.bodies for a in b.lits for y in subterms(a))


def outer_events(paths):
    """what happens outside loops: on any path, which events and how often"""
    return {tuple(sorted((e[1], repr(e[2])) for e in p.events)) for p in paths}


def all_bodies(paths, whiles=False):
    """the loop bodies on any of the paths"""
    out = set()

    def go(evs):
        for e in evs:
            if e[1] == 'loop':
                if not whiles or e[3] is None and not any(y[0] == 'idxa' for b in e[5].bodies for a in b.lits for y in subterms(a)):
                    out.add(e[5].bkey())
                for b in e[5].bodies:
                    go(b.events)
    for p in paths:
        go(p.events)
    return out


def has_ver(t):
    return any(x[0] == 'ver' for x in subterms(t))


def after_loop(t):
    """mentions state left behind by a loop"""
    return any(x[0] in ('hv', 'ver') and isinstance(x[1], str) and x[1][:1] == 'E' for x in subterms(t))


def of_loop(t):
    """mentions what a loop computed or met"""
    return any(x[0] in ('hv', 'ver', 'brk', 'idxa', 'itera', 'elem') and any(isinstance(y, str) and y[:1] == 'E' and y[1:].isdigit() for y in x[1:]) for x in subterms(t))


def path_terms(p):
    for a in p.lits:
        yield from subterms(a)
    for x in p.out[1:]:
        if isinstance(x, tuple):
            yield from subterms(x)
    for e in p.events:
        for x in e[3:5]:
            if isinstance(x, tuple):
                yield from subterms(x)
    for k, (raw, v) in p.store.items():
        yield from subterms(v)


LIBRARY = {'call', 'starts_with', 'ends_with', 'any', 'count', 'mapped', 'tostr', 'cat'}


def frozen_variable(R, C):
    """the second program is the first with one loop variable stuck at its initial value"""
    def mods(P):
        return {m: v for p in P for e in p.events if e[1] == 'loop' for m, v in e[5].mods if m[:2] == 'v:'}

    def f(t, S):
        if not isinstance(t, tuple) or not t:
            return t
        if t in S:
            return S[t]
        t = tuple(f(x, S) for x in t)
        return t[2] if t[0] == 'typed' and len(t) == 3 and t[2] in (TRUE, FALSE) else t

    def kp(p, var, S):
        evs = []
        for e in p.events:
            if e[1] == 'loop':
                evs.append(('loop', f(e[3], S), tuple(f(x, S) for x in e[5].mods if x[0] != var), sorted(repr(kp(b, var, S)) for b in e[5].bodies)))
            else:
                evs.append(f(e[:5], S))
        return (sorted(repr((f(a, S), v)) for a, v in p.lits.items()), evs, f(p.out, S),
                sorted(repr((k, f(v[1], S))) for k, v in p.store.items() if k != ('upd', var)))
    rm, cm = mods(R), mods(C)
    gone = [m for m in rm if m not in cm]
    if len(gone) != 1 or not is_lit(rm[gone[0]]):
        return None
    var, init = gone[0], rm[gone[0]]
    S = {('hv', 'E1', var[2:]): init}
    ups = [b.store[('upd', var)][1] for p in R for e in p.events if e[1] == 'loop' for b in e[5].bodies if ('upd', var) in b.store]
    if not ups or any(not is_lit(u) for u in ups) or all(u == init for u in ups):
        return None
    return init if sorted(repr(kp(p, var, S)) for p in R) == sorted(repr(kp(p, '', {})) for p in C) and \
        sorted(repr(kp(p, '', {})) for p in R) != sorted(repr(kp(p, '', {})) for p in C) else None


def loop_replaced(R, C):
    """one program loops, the other does not and calls library functions the first does not: a loop may have become a library call"""
    def loops(P):
        return any(e[1] == 'loop' for p in P for e in p.events) or any(x[0] in ('brk', 'any', 'hv', 'idxa') for p in P for x in path_terms(p))

    def lib(P):
        return {(x[0], x[1] if x[0] == 'call' else None) for p in P for x in path_terms(p) if x[0] in LIBRARY}
    lr, lc = loops(R), loops(C)
    if lr == lc:
        return False
    return bool(lib(R) - lib(C) if lc else lib(C) - lib(R))


def in_loop(t, depth):
    for x in subterms(t):
        if x[0] in ('hv', 'idxa', 'elem', 'itera', 'brk', 'ver') and len(x) > 2 or x[0] == 'idxa':
            d = x[1] if x[0] in ('hv', 'idxa', 'ver') else x[2]
            if isinstance(d, str) and d[0] == 'E' and int(d[1:]) >= depth:
                return True
    return False


def ekey(evs):
    return tuple(sorted((e[:5] + (e[5].key(),) if e[1] == 'loop' else e for e in evs), key=repr))


def lkey(C, e, m, pre):
    if e.local(m):
        h = pre[2] if pre[0] == 'typed' else pre
        return 'v:%s' % (h[2] if h[0] == 'havoc' else h[0],)
    return 'f:' + e.lname(m)


def fields_in(t):
    return {x[2] for x in subterms(t) if x[0] == 'fld' and isinstance(x[2], str)}


def merge_out(evs):
    out = []
    for ev in evs:
        if ev.kind == 'out' and out and out[-1].kind == 'out' and out[-1].recv == ev.recv:
            try:
                out[-1] = out[-1]._replace(args=(cat(*(out[-1].args + ev.args)),))
                continue
            except Exception:
                pass
        if ev.kind == 'out' and len(ev.args) > 1:
            ev = ev._replace(args=(cat(*ev.args),))
        out.append(ev)
    return out


def exc_type(o):
    for x in o[1:]:
        if isinstance(x, str):
            return x
        if isinstance(x, tuple) and x and x[0] == 'new':
            return x[1]
    return '?'


def collect(t, syms):
    if not isinstance(t, tuple):
        return
    for x in subterms(t):
        h = x[0]
        if h == 'fld':
            syms.add(('fld', x[2]))
        elif h == 'rec' and len(x) == 3:
            syms.update(('fld', n) for n, _ in x[2])
        elif h in ('ret', 'call') and len(x) > 1 and isinstance(x[1], str):
            syms.add(('fn', x[1]))
        elif h == 'lamtext':
            syms.add(('lt', x[1]))
        elif h == 'unk':
            syms.add(('unk',))
        elif h not in INTERP:
            syms.add(('h', h))


def collect_events(evs, syms):
    for ev in evs:
        if ev[1] == 'call':
            syms.add(('fn', ev[2]))
        if ev[1] == 'loop':
            syms.add(('h', 'loop'))
            for b in ev[5].bodies:
                for a in b.lits:
                    collect(a, syms)
                collect_events(b.events, syms)
                for k, v in b.store.items():
                    collect(v[1], syms)
        for x in ev[3:5]:
            collect(x, syms)


# ------------------------------------------------------------------------------------------- valuations
ARITH = {'eq', 'lt', 'empty'}
THROUGH = {'poly', 'op', 'trunc', 'eq', 'lt', 'not', 'and', 'or', 'ite', 'empty'}


def leaves(t, out):
    if not isinstance(t, tuple) or not t:
        return out
    h = t[0]
    if h == 'poly':
        for k, v in t[1]:
            for f in k:
                leaves(f, out)
    elif h == 'empty':
        out.append(('size', t[1]))
    elif h in THROUGH:
        for x in t[1:]:
            if isinstance(x, tuple):
                leaves(x, out)
    elif h not in ('int', 'bool', 'str', 'flt', 'enum', 'null', 'none'):
        out.append(t)
    return out


VARIANTS = []       # alternative lists of the std::variant types the programs mention


def variant_family(ts):
    c = [v for v in VARIANTS if ts <= set(v)]
    return min(c, key=len) if c else sorted(ts) + ['?']


def collect_variants(P):
    from stdmodel import targs_of
    seen = set()

    def go(n):
        if isinstance(n, dict):
            for k, v in n.items():
                if k in ('t', 'ret') and isinstance(v, str):
                    if 'std::variant<' in v and v not in seen:
                        seen.add(v)
                        for i in [m.start() for m in re.finditer('std::variant<', v)]:
                            alts = [_tclean(x) for x in targs_of(v[i:])]
                            if alts and alts not in VARIANTS:
                                VARIANTS.append(alts)
                elif isinstance(v, (dict, list)):
                    go(v)
        elif isinstance(n, list):
            for x in n:
                go(x)
    for f in P.funcs.values():
        go(f)
    go(list(P.classes.values()))


CTYPE = {'isspace': ' \t\n\v\f\r', 'isdigit': '0123456789'}
import string
CTYPE['isalpha'] = string.ascii_letters
CTYPE['isalnum'] = string.ascii_letters + string.digits


def ctype(t, V):
    """character classification of a value in the range of characters"""
    if t[0] == 'typed' and t[1] == 'bool':
        t = t[2]
    if t[0] == 'call' and len(t) == 3:
        t = t[1:]
    if t[0] == 'ret' and len(t) == 4:
        t = (t[1], t[3][0] if len(t[3]) == 1 else None)
    n = t[0].split('::')[-1] if isinstance(t[0], str) else None
    if n in CTYPE and len(t) == 2 and isinstance(t[1], tuple):
        x = V(t[1])
        if isinstance(x, int) and -1 <= x < 128:
            return x >= 0 and chr(x) in CTYPE[n]
    return None


class Val:
    """One interpretation: env fixes leaves, forced fixes opaque boolean atoms, everything else is a hash of its arguments."""

    def __init__(self, seed, env, forced):
        self.seed, self.env, self.forced, self.memo = seed, env, forced, {}
        self.alts = {}
        self.fk = None
        self.wrapped, self.overflow = set(), False      # sums that left the 64 bit range; a signed comparison looked at one

    def consistent(self):
        """opaque atoms that are forced apart although their arguments have the same values"""
        if self.fk is None:
            self.fk = {}
            for a, v in self.forced.items():
                if ctype(a, self) not in (None, v):
                    self.fk = None
                    return False
                k = (a[0],) + tuple(self(x) if isinstance(x, tuple) else x for x in a[1:])
                if self.fk.setdefault(k, v) != v:
                    self.fk = None
                    return False
            self.memo.clear()
        return True

    def num(self, x):
        return x if isinstance(x, (int, float)) else _h(self.seed, ('num', x))

    def __call__(self, t):
        if not isinstance(t, tuple):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.ev(t)
            self.memo[t] = r
        return r

    def ev(self, t):
        if t in self.forced:
            return 1 if self.forced[t] else 0
        if t in self.env:
            return self.env[t]
        if not t or not isinstance(t[0], str):
            return tuple(self(x) for x in t)
        h = t[0]
        if h == 'rec' and len(t) == 3:
            return ('rec', t[1], tuple((n, self(v)) for n, v in t[2]))
        if h == 'lamtext':
            return t
        if h == 'lambda' and len(t) == 2:
            return ('lambda', tuple((pt, self(v)) for pt, v in t[1]))
        if h == 'dflt' and len(t) > 1 and str(t[1]).startswith('std::'):
            return t        # a default constructed library object is one fixed value
        if h in ('unk', 'undef', 'oob', 'dflt'):
            raise Undecided('unknown value %s' % (t[:2],))
        if h == 'int':
            x = t[1] % (1 << 64)
            return x - (1 << 64) if x >= 1 << 63 else x
        if h == 'bool':
            return 1 if t[1] else 0
        if h == 'enum':
            return t[2]
        if h in ('str', 'flt', 'null', 'none'):
            return t
        if h == 'typed' and t[1] != 'bool':
            return self(t[2])
        if h == 'poly':
            s = 0
            for k, v in t[1]:
                m = v
                for f in k:
                    m *= self.num(self(f))
                s += m
            if isinstance(s, float):
                return s
            if not -1 << 63 <= s < 1 << 63:
                self.wrapped.add(t)
            s %= 1 << 64
            return s - (1 << 64) if s >= 1 << 63 else s
        if h == 'not':
            return 0 if self.num(self(t[1])) else 1
        if h == 'eq':
            a, b = self(t[1]), self(t[2])
            if isinstance(a, int) != isinstance(b, int) and not (isinstance(a, tuple) and isinstance(b, tuple)):
                if isinstance(a, tuple) and a and a[0] in ('str', 'null', 'none') or isinstance(b, tuple) and b and b[0] in ('str', 'null', 'none'):
                    return 0
                a, b = self.num(a), self.num(b)
            return 1 if a == b else 0
        if h == 'lt':
            a, b = self.num(self(t[2])), self.num(self(t[3]))
            if t[1] == 'u':
                a, b = int(a) % (1 << 64), int(b) % (1 << 64)
            elif isinstance(a, int) and isinstance(b, int):
                if t[2] in self.wrapped or t[3] in self.wrapped:
                    self.overflow = True
                a, b = ((x + (1 << 63)) % (1 << 64) - (1 << 63) for x in (a, b))
            return 1 if a < b else 0
        if h == 'and':
            return 1 if self.num(self(t[1])) and self.num(self(t[2])) else 0
        if h == 'or':
            return 1 if self.num(self(t[1])) or self.num(self(t[2])) else 0
        if h == 'ite':
            return self(t[2]) if self.num(self(t[1])) else self(t[3])
        if h == 'empty':
            return 1 if self(('size', t[1])) == 0 else 0
        if h == 'size':
            return _h(self.seed, ('size', self(t[1]))) % 5
        if h == 'trunc':
            w, sg = INT_T.get(t[1], (64, True))
            x = int(self.num(self(t[2]))) % (1 << w)
            return x - (1 << w) if sg and x >= 1 << (w - 1) else x
        if h == 'op':
            try:
                return teval(('op', t[1], ('x',), ('y',)), {('x',): self.num(self(t[2])), ('y',): self.num(self(t[3]))}, 64)
            except Exception:
                return _h(self.seed, ('op', t[1], self(t[2]), self(t[3])))
        if h == 'tostr' and len(t) == 2:
            x = self(t[1])
            return ('str', str(x)) if isinstance(x, int) else ('tostr', x)
        if h == 'chr' and len(t) == 2:
            x = self(t[1])
            return ('str', chr(x & 0x7f)) if isinstance(x, int) and 0 <= x < 128 else ('chr', x)
        if h == 'cat':
            out = []
            for x in t[1]:
                x = self(x)
                for y in x[1:] if isinstance(x, tuple) and x[:1] == ('cat',) else (x,):
                    if isinstance(y, tuple) and y[:1] == ('str',) and out and isinstance(out[-1], tuple) and out[-1][:1] == ('str',):
                        out[-1] = ('str', out[-1][1] + y[1])
                    elif y != ('str', ''):
                        out.append(y)
            return out[0] if len(out) == 1 and isinstance(out[0], tuple) else ('cat',) + tuple(out)
        if h == 'mset':
            items, b = {}, t
            while b[0] == 'mset':
                items.setdefault(self(b[2]), self(b[3]))
                b = b[1]
            if b[0] == 'lmap':
                for k, x in b[1]:
                    items.setdefault(self(k), self(x))
            return ('mset', 'empty' if b[0] in ('emptyc', 'lmap') else self(b), tuple(sorted(items.items(), key=repr)))
        if h == 'lmap' and len(t) == 2:
            return ('mset', 'empty', tuple(sorted(((self(k), self(x)) for k, x in t[1]), key=repr)))
        if h == 'at' and len(t) == 3 and t[1][0] == 'mset':
            b, k = t[1], self(t[2])
            while b[0] == 'mset':
                if self(b[2]) == k:
                    return self(b[3])
                b = b[1]
            return self(('at', b, t[2]))
        if h == 'holds' and len(t) == 3:
            # a variant holds exactly one of its alternatives
            x = self(t[1])
            if x not in self.alts:
                fr = [(a[2], v) for a, v in self.forced.items() if a[0] == 'holds' and self(a[1]) == x]
                got = next((T for T, v in fr if v), None)
                if got is None:
                    no = {T for T, v in fr}
                    fam = variant_family(no | {t[2]})
                    left = [T for T in fam if T not in no] or ['?']
                    got = left[_h(self.seed, ('holds', x)) % len(left)]
                self.alts[x] = got
            return 1 if self.alts[x] == t[2] else 0
        if is_boolean(t) or h == 'brk':
            r = ctype(t, self)
            if r is not None:
                return 1 if r else 0
            k = (h,) + tuple(self(x) for x in t[1:])
            if self.fk and k in self.fk:
                return 1 if self.fk[k] else 0
            return _h(self.seed, k) & 1
        key = (h,) + tuple(self(x) if isinstance(x, tuple) else x for x in t[1:])
        if h in STRUCT:
            return key
        return _h(self.seed, key)


def equalities(lits):
    """substitution from the positive equality literals; None when they contradict constants"""
    m = []
    rest = dict(lits)
    for a, v in list(lits.items()):
        if v and a[0] == 'eq':
            x, y = a[1], a[2]
            for old, new in m:
                x, y = subst(x, {old: new}), subst(y, {old: new})
            if x == y:
                continue
            if is_lit(x) and is_lit(y):
                return None
            if is_lit(x):
                x, y = y, x
            if x[0] == 'poly' or y[0] == 'poly':
                d = sub(x, y)
                if d[0] != 'poly':
                    continue
                pick = None
                for k, c in d[1]:
                    if len(k) == 1 and c in (1, -1):
                        others = [f for k2, c2 in d[1] if k2 != k for f in k2]
                        if not any(k[0] in list(subterms(o)) for o in others):
                            pick = (k[0], c)
                            break
                if pick is None:
                    continue
                leaf, c = pick
                restp = sub(d, mul(I(c), leaf))
                new = mul(I(-c), restp)
                m.append((leaf, new))
            else:
                if x in list(subterms(y)) or x[0] in THROUGH:
                    if y in list(subterms(x)) or y[0] in THROUGH or is_lit(y):
                        continue
                    x, y = y, x
                m.append((x, y))
            rest.pop(a, None)
    return m


def interval_contradiction(lits):
    """bounds of one unsigned quantity by constants that exclude each other"""
    lo, hi = {}, {}
    for a, v in lits.items():
        if a[0] == 'empty':
            x = ('size', a[1])
            if v:
                hi[x] = min(hi.get(x, 0), 0)
            else:
                lo[x] = max(lo.get(x, 1), 1)
        elif a[0] == 'lt' and a[1] == 'u':
            x, y = a[2], a[3]
            if y[0] == 'int' and x[0] not in ('int', 'poly') and 0 <= y[1] < 1 << 62:
                if v:
                    hi[x] = min(hi.get(x, y[1] - 1), y[1] - 1)
                else:
                    lo[x] = max(lo.get(x, y[1]), y[1])
            elif x[0] == 'int' and y[0] not in ('int', 'poly') and 0 <= x[1] < 1 << 62:
                if v:
                    lo[y] = max(lo.get(y, x[1] + 1), x[1] + 1)
                else:
                    hi[y] = min(hi.get(y, x[1]), x[1])
        elif a[0] == 'eq' and v and a[2][0] == 'int' and a[1][0] == 'size':
            lo[a[1]] = max(lo.get(a[1], a[2][1]), a[2][1])
            hi[a[1]] = min(hi.get(a[1], a[2][1]), a[2][1])
    return any(lo.get(x, 0) > h for x, h in hi.items())


def is_lit(t):
    return t[0] in ('int', 'str', 'bool', 'enum', 'flt', 'null', 'none')


def size_value(x):
    x = abs(x)
    return x if x < 1 << 20 else x % 64


def witnesses(lits, want, rng, tries=60):
    """valuations that satisfy all literals"""
    m = equalities(lits)
    if m is None:
        return [], None
    bm = {}

    def sb0(t):
        for old, new in m:
            t = subst(t, {old: new, ('empty', old[1]): eq(new, I(0))} if old[0] == 'size' else {old: new})
        return t

    def sb(t):
        t = sb0(t)
        return subst(t, bm) if bm else t
    ls = [(sb0(a) if m else a, v) for a, v in lits.items()]
    for a, v in ls:
        if is_boolean(a) and a[0] not in ('bool', 'not', 'and', 'or'):
            bm[a] = TRUE if v else FALSE
    forced, arith = {}, []
    holds = {}
    for a, v in ls:
        a2 = renorm(tuple(subst(x, bm) if isinstance(x, tuple) else x for x in a)) if bm else a
        while a2[0] == 'not':
            a2, v = a2[1], not v
        if a2[0] == 'bool':
            if a2[1] != v:
                return [], None
            continue
        if a2[0] in ARITH or a2[0] in ('and', 'or', 'ite'):
            arith.append((a2, v))
        else:
            if forced.get(a2, v) != v:
                return [], None
            forced[a2] = v
            if a2[0] == 'holds' and v:
                if holds.setdefault(a2[1], a2[2]) != a2[2]:
                    return [], None
    for x in {a[1] for a, v in forced.items() if a[0] == 'holds'} - set(holds):
        no = {a[2] for a, v in forced.items() if a[0] == 'holds' and a[1] == x}
        if set(variant_family(no)) <= no:
            return [], None
    lv = []
    consts = {0, 1, 2, 3, -1, 7}
    for a, v in arith:
        lv.append([x for x in leaves(a, []) if x not in forced])
        for x in subterms(a):
            if x[0] == 'int':
                consts |= {x[1] - 1, x[1], x[1] + 1}
            if x[0] == 'enum':
                consts |= {x[2]}
            if x[0] == 'poly':
                for k, c in x[1]:
                    if not k:
                        consts |= {c, -c, c + 1, -c + 1, c - 1, -c - 1}
    pool = sorted(consts)
    res = []
    for t in range(tries):
        if len(res) >= want:
            break
        env = {}
        seed = rng.randrange(1 << 30)
        for l in lv:
            for x in l:
                if x not in env:
                    env[x] = rng.choice(pool) if rng.random() < .75 else rng.choice((rng.randrange(0, 40), rng.randrange(-1 << 62, 1 << 62)))
                    if x[0] == 'size':
                        env[x] = size_value(env[x])
        ok = False
        for it in range(120):
            V = Val(seed, env, forced)
            badi = [i for i, (a, v) in enumerate(arith) if bool(V(a)) != v]
            if not badi:
                if not V.consistent():
                    break
                badi = [i for i, (a, v) in enumerate(arith) if bool(V(a)) != v]
                if not badi:
                    ok = True
                    break
            i = rng.choice(badi)
            if not lv[i]:
                break
            x = rng.choice(lv[i])
            r = rng.random()
            env[x] = rng.choice(pool) if r < .6 else (rng.choice(list(v for v in env.values())) + rng.choice((-1, 0, 1)) if r < .85 else rng.randrange(-1 << 62, 1 << 62))
            if x[0] == 'size':
                env[x] = size_value(env[x])
        if ok:
            res.append(V)
    return res, sb


# ------------------------------------------------------------------------------------------- comparison
class Comparer:
    def __init__(self, seed=1):
        self.rng = random.Random(seed)
        self.pairs = 0
        self.deadline = 1e18

    def paths(self, R, C, ctx=None, limit=20000, whole=True):
        """-> ('eq', None) | ('diff', detail) | ('und', reason)"""
        und = None
        ctx = ctx or {}
        n = 0
        for r in R:
            for c in C:
                if contradict(r.lits, c.lits) or contradict(r.lits, ctx) or contradict(c.lits, ctx):
                    continue
                n += 1
                self.pairs += 1
                if time.time() > self.deadline:
                    return 'und', 'time limit'
                if n > limit:
                    return 'und', 'too many path pairs'
                if r.out[0] in ('abort',):
                    continue
                v, d = self.pair(r, c, ctx)
                if v == 'diff':
                    return v, d
                if v == 'und':
                    und = d
        try:
            for X, Y, what in ((R, C, 'has no counterpart now'), (C, R, 'has no counterpart in the reference')):
                d = self.cover(X, Y, ctx, whole)
                if d:
                    return 'diff', d + ' ' + what
        except Undecided as ex:
            und = str(ex)
        return ('und', und) if und else ('eq', None)

    def cover(self, X, Y, ctx, whole):
        """every situation one side has a path (or, for loop bodies, an effect) for, the other side has one too"""
        keys = {frozenset(y.lits.items()) for y in Y}
        if len(X) * len(Y) > 40000:
            return None
        for x in X:
            if x.out[0] == 'abort' or frozenset(x.lits.items()) in keys or contradict(x.lits, ctx):
                continue
            if not whole and self.noop(x):
                continue
            lits = dict(ctx)
            lits.update(x.lits)
            for L in self.outside(lits, Y):
                W, sb = witnesses(L, 2, self.rng, tries=20)
                for V in W:
                    if not any(all(bool(V(sb(a))) == v for a, v in y.lits.items() if a in x.lits or not whole or not after_loop(a)) for y in Y):
                        if V.overflow:
                            continue
                        if whole and self.wbodies[0] != self.wbodies[1]:
                            fz = frozen_variable(X, Y) or frozen_variable(Y, X)
                            if fz:
                                return 'a loop where a variable stays at %s instead of changing' % sh(fz)
                        if whole and self.wbodies[0] != self.wbodies[1] and any(has_ver(a) or after_loop(a) for p in (x,) + tuple(Y) for a in p.lits):
                            raise Undecided('a while loop changed its shape')
                        return 'the case %s (%s)' % (', '.join(('' if v else 'not ') + sh(a)[:90] for a, v in list(x.lits.items())[-3:]),
                                                     showout(x.out) if whole else showev(x.events) if x.events else 'update')
                if time.time() > self.deadline:
                    raise Undecided('time limit')
        return None

    @staticmethod
    def outside(lits, Y, limit=40):
        """the given situation, and its splits along the other side's conditions into regions none of Y covers"""
        yield lits
        n, todo, seen = 0, [lits], set()
        while todo and n < limit:
            L = todo.pop()
            y = next((y for y in Y if not contradict(L, y.lits)), None)
            if y is None:
                n += 1
                yield L
                continue
            for a, v in y.lits.items():
                if a not in L:
                    M = dict(L)
                    M[a] = not v
                    k = frozenset(M.items())
                    if k not in seen and len(seen) < 2000:
                        seen.add(k)
                        todo.append(M)

    def pair(self, r, c, ctx):
        if r.out == c.out and ekey(r.events) == ekey(c.events) and self.store_same(r, c):
            return 'eq', None
        lits = dict(ctx)
        lits.update(r.lits)
        lits.update(c.lits)
        ub = None
        try:
            W, sb = witnesses(lits, 6, self.rng)
            if sb is None:
                return 'eq', None           # contradictory path conditions
            W = [(V, sb) for V in W]
            lts = [a for a in lits if a[0] == 'lt']
            if not W:
                for a in lts[:12]:
                    w, s2 = witnesses({**lits, eq(a[2], a[3]): True}, 2, self.rng, tries=15)
                    W += [(V, s2) for V in w]
                    if W:
                        break
        except Undecided as ex:
            return 'und', str(ex)
        if not W and interval_contradiction(lits):
            return 'eq', None
        if not W:
            return 'und', 'no common valuation found'
        try:
            for V, sb in W:
                for V in self.reseed(V, sb, lits, 4):
                    d = self.differs(r, c, V, sb, lits)
                    if d and not V.overflow:
                        return 'diff', d
                    ub = ub or d
            # decisions inside the values: both outcomes, and the boundary
            for a in self.atoms(r, c)[:12]:
                if a in lits:
                    continue
                more = [{a: True}, {a: False}]
                if a[0] == 'lt':
                    b = eq(a[2], a[3])
                    if b[0] == 'eq':
                        more.append({b: True})
                for m in more:
                    edge = a[0] == 'lt' and m is more[-1]
                    w, s2 = witnesses({**lits, **m}, 8 if edge else 2, self.rng, tries=16 if edge else 12)
                    for V in w:
                        for V in self.reseed(V, s2, {**lits, **m}, 2):
                            d = self.differs(r, c, V, s2, lits)
                            if d and not V.overflow:
                                return 'diff', d
                            ub = ub or d
        except Undecided as ex:
            return 'und', str(ex)
        if ub:
            return 'und', 'differs only where a signed sum overflows'
        return 'eq', None

    def reseed(self, V, sb, lits, n):
        """the valuation, and others that differ from it in what the literals leave open"""
        yield V
        for i in range(n):
            W = Val(self.rng.randrange(1 << 30), V.env, V.forced)
            if W.consistent() and all(bool(W(sb(a))) == v for a, v in lits.items()):
                yield W

    @staticmethod
    def atoms(r, c):
        out = []
        seen = set()

        def go(t):
            if not isinstance(t, tuple) or not t or t in seen:
                return
            seen.add(t)
            if t[0] in ('lt', 'eq', 'has', 'has_value', 'holds') or t[0] == 'typed' and t[1] == 'bool':
                out.append(t)
            for x in t[1:] if t[0] in ('not', 'and', 'or') else t[1:2] if t[0] == 'ite' else ():
                if isinstance(x, tuple) and x[0] not in ('not', 'and', 'or', 'ite', 'bool', 'eq', 'lt', 'has', 'has_value', 'holds', 'typed', 'int', 'poly') and x not in seen:
                    out.append(x)
            if t[0] == 'rec' and len(t) == 3:
                for _, x in t[2]:
                    go(x)
                return
            for x in t[1:] if isinstance(t[0], str) else t:
                if isinstance(x, tuple):
                    go(x)
        for p in (r, c):
            for x in p.out[1:]:
                go(x)
            for e in p.events:
                for x in e[3:5]:
                    go(x)
            for k, (raw, v) in p.store.items():
                go(v)
        return out

    @staticmethod
    def store_same(r, c):
        if set(r.store) != set(c.store):
            return False
        return all(r.store[k][1] == c.store[k][1] for k in r.store)

    def differs(self, r, c, V, sb, lits):
        rs, cs = ([e for e in x.events if e[1] == 'loop'] for x in (r, c))
        odd = sorted(repr(e[2]) for e in rs) != sorted(repr(e[2]) for e in cs)
        if odd and self.bodies[0] != self.bodies[1] and (r.out[0] != c.out[0] and any(of_loop(a) for a in lits) or any(of_loop(x) for p in (r, c) for x in p.out if isinstance(x, tuple))):
            raise Undecided('loops of a different shape')
        if r.out[0] != c.out[0]:
            return 'outcome %s, reference %s' % (showout(c.out), showout(r.out))
        if r.out[0] == 'throw' and r.out[1] != c.out[1]:
            return 'throws %s, reference throws %s' % (c.out[1], r.out[1])
        rl, cl = [[e for e in x.events if e[1] == 'loop'] for x in (r, c)]
        if len(rl) != len(cl):
            for e in rl + cl:
                if e[3] is not None and any(v and a == ('empty', e[3]) or not v and a == ('lt', 'u', I(0), ('size', e[3])) for a, v in lits.items()):
                    raise Undecided('a loop over an empty range')
        if r.out[0] == 'return' and r.out[1] != c.out[1]:
            a, b = V(sb(r.out[1])), V(sb(c.out[1]))
            if a != b:
                return 'returns %s, reference returns %s' % (sh(c.out[1]), sh(r.out[1]))
        if r.out[0] in ('throw', 'abort', 'exit') and False:
            return None
        # events
        d = self.events(r.events, c.events, V, sb, lits)
        if d:
            return d
        for k in sorted(set(r.store) | set(c.store), key=repr):
            x = self.fetch(r, c, k)
            y = self.fetch(c, r, k)
            if x == y:
                continue
            if x is None or y is None:
                raise Undecided('loop updates differ in shape')
            if V(sb(x)) != V(sb(y)):
                return '%s becomes %s, reference %s' % (sh(k), sh(y), sh(x))
        return None

    @staticmethod
    def fetch(p, other, k):
        if k in p.store:
            return p.store[k][1]
        if k[0] == 'upd':
            if k[1] not in p.pre and k[1][:2] == 'f:':
                return other.pre.get(k[1])
            return p.pre.get(k[1])
        raw = other.store[k][0]
        st = St()
        st.store = p.raw.store
        st.vers = p.raw.vers
        return p.canon(p.eng.read(st, raw))

    def events(self, re_, ce, V, sb, lits):
        pend = [sorted((e[2], repr(V(sb(x)))) for e in l if e[1] == 'call' for x in e[4] if x[0] == 'mvis') for l in (re_, ce)]

        def val(e):
            if e[1] == 'loop':
                return (e[0], 'loop', e[2], V(sb(e[3])) if e[3] is not None else None, tuple(V(sb(x)) for x in e[4]))
            if e[4] and e[4][-1][0] == 'mvis':
                e = e[:4] + (e[4][:-1],) + e[5:]
            return (e[0], e[1], e[2] if isinstance(e[2], str) else V(sb(e[2])) if isinstance(e[2], tuple) else e[2],
                    V(sb(e[3])) if e[3] is not None else None, tuple(V(sb(x)) for x in e[4]))
        rl, cl = [e for e in re_ if e[1] == 'loop'], [e for e in ce if e[1] == 'loop']
        if sorted(repr(e[2]) for e in rl) != sorted(repr(e[2]) for e in cl):
            for loops, others, who in ((rl, ce, 'no longer visits'), (cl, re_, 'now also visits')):
                if not any(e[1] == 'loop' for e in others):
                    for e in loops:
                        if self.omitted(e, others, lits):
                            return '%s %s' % (who, sh(e[3]))
            raise Undecided('loops of a different shape')
        a = sorted(((repr(val(e)), e) for e in re_), key=lambda x: x[0])
        b = sorted(((repr(val(e)), e) for e in ce), key=lambda x: x[0])
        ka, kb = [x[0] for x in a], [x[0] for x in b]
        if ka != kb:
            self.reordered(a, b, V, sb)
            nm = lambda x: sorted((e[1], repr(e[2])) for _, e in x)
            if nm(a) == nm(b) and rl and any(e[1] != 'loop' for k, e in a + b if (k in ka) != (k in kb)) and sorted(map(repr, (e[5].key() for e in rl))) != sorted(map(repr, (e[5].key() for e in cl))):
                raise Undecided('calls moved around a loop')
            if sorted(positional(e[5]) for e in rl) != sorted(positional(e[5]) for e in cl) and nm(a) != nm(b):
                raise Undecided('an iteration peeled off a loop')
            only_r = [e for k, e in a if k not in kb]
            only_c = [e for k, e in b if k not in ka]
            return 'does %s, reference does %s' % (showev(only_c or [e for _, e in b]), showev(only_r or [e for _, e in a]))
        for (k, e), (k2, e2) in zip(a, b):
            if e[1] == 'loop' and e[5].key() != e2[5].key():
                m1, m2 = dict(e[5].mods), dict(e2[5].mods)
                for m in sorted(set(m1) & set(m2)):
                    if m[:2] == 'f:' and m1[m] != m2[m] and V(sb(m1[m])) != V(sb(m2[m])):
                        return 'enters a loop with %s = %s, reference %s' % (m[2:], sh(m2[m]), sh(m1[m]))
                v, d = self.paths(e[5].bodies, e2[5].bodies, {x: y for x, y in lits.items() if (x in e[5].known or x in e2[5].known) and not in_loop(x, e[5].depth)}, whole=False)
                if v == 'diff' and e[5].bkey() in self.bodies[1] and e2[5].bkey() in self.bodies[0]:
                    raise Undecided('loops in another order')
                if v == 'diff' and positional(e[5]) != positional(e2[5]) and self.outer[0] != self.outer[1]:
                    raise Undecided('an iteration peeled off a loop')
                if v == 'diff':
                    return 'in an iteration over %s: %s' % (sh(e[3]) if e[3] else 'a loop', d)
                if v == 'und':
                    raise Undecided('loop body: %s' % d)
        if pend[0] != pend[1]:
            raise Undecided('a write before a call that may overwrite it')
        return None

    def omitted(self, e, others, lits):
        """a loop whose every iteration makes calls with effects, against a side that makes none of them; the range may have elements"""
        if e[3] is None or any(x[0] in ('size', 'empty', 'begin', 'end', 'iter', 'iter_any') and any(y == e[3] for y in subterms(x)) for a in lits for x in subterms(a)):
            return False
        names = {o[2] for o in others if o[1] == 'call'}
        B = [b for b in e[5].bodies if b.out[0] != 'abort']
        return bool(B) and all(any(x[1] == 'call' and x[2] not in names and not x[2].startswith('std::') and (self.effect(x[2]) or b.store) for x in b.events) for b in B)

    def reordered(self, a, b, V, sb):
        """the same calls in another order, where the calls conflict only through elements of containers: they may commute"""
        calls = [[(e[0], e[2], V(sb(strip_ver(e[3]))) if e[3] is not None else None, tuple(V(sb(strip_ver(x))) for x in e[4] if x[0] != 'mvis'))
                  for _, e in x if e[1] == 'call'] for x in (a, b)]
        if len(calls[0]) != len(a) or len(calls[1]) != len(b):
            return
        key = lambda c: repr(c[1:])
        if sorted(map(key, calls[0])) != sorted(map(key, calls[1])):
            return
        pos = [{}, {}]
        for i in (0, 1):
            for c in calls[i]:
                pos[i].setdefault(key(c), []).append(c[0])
        moved = [c for c in calls[0] if pos[0][key(c)] != pos[1][key(c)]]
        swapped = [(c, d) for c in moved for d in moved if key(c) < key(d) and (c[0] < d[0]) != (min(pos[1][key(c)]) < min(pos[1][key(d)]))]
        if swapped and all(self.keyed(c[1], d[1]) for c, d in swapped):
            raise Undecided(COMMUTE)

    @staticmethod
    def noop(b):
        return not b.events and not b.store


def strip_ver(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'ver' and len(t) == 3:
        return strip_ver(t[2])
    if t[0] == 'ret' and len(t) == 4:
        return ('ret', t[1], 'x', strip_ver(t[3]))
    if t[0] == 'rec' and len(t) == 3:
        return ('rec', t[1], tuple((n, strip_ver(v)) for n, v in t[2]))
    return tuple(strip_ver(x) if isinstance(x, tuple) else x for x in t)


def contradict(a, b):
    if len(b) < len(a):
        a, b = b, a
    for x, v in a.items():
        if b.get(x, v) != v:
            return True
    return False


def sh(t):
    try:
        return show(t)[:220]
    except Exception:
        return str(t)[:220]


def showout(o):
    if o[0] == 'return':
        return 'returns ' + sh(o[1])
    return ' '.join(str(x) for x in o)


def showev(evs):
    r = []
    for e in evs[:6]:
        if e[1] == 'call':
            r.append('%s(%s)' % (e[2].split('::')[-1], ', '.join(sh(x)[:80] for x in e[4])))
        elif e[1] == 'loop':
            r.append('loop over %s' % (sh(e[3]) if e[3] else '?'))
        else:
            r.append('%s %s' % (e[1], ', '.join(sh(x)[:80] for x in e[4])))
    return '; '.join(r) or 'nothing'


def retpath(f):
    """fields x.y of *this such that every return statement returns this->x.y"""
    rets = []

    def go(n):
        if isinstance(n, dict):
            if n.get('k') == 'lambda':
                return
            if n.get('k') == 'return':
                rets.append(n.get('e'))
            for v in n.values():
                go(v)
        elif isinstance(n, list):
            for x in n:
                go(x)
    go(f.get('body'))
    ps = set()
    for e in rets:
        if e and e.get('k') == 'assign' and not e.get('op'):
            e = e.get('l')
        p = []
        while e and e.get('k') == 'fld':
            p.append(e['n'])
            e = e['b']
        ps.add(tuple(reversed(p)) if p and e and e.get('k') == 'this' else None)
    return ps.pop() if len(ps) == 1 and not f.get('retref') else None


# ------------------------------------------------------------------------------------------- driver
class Conform:
    def __init__(self, ref, cur, seed=1, only=None):
        from modref import ModRef
        self.ref, self.cur = ref, cur
        mr = ModRef(ref)
        mc = ModRef(ref)            # common functions keep their reviewed effects; own `seen`
        mc.direct, mc.eff, mc.params, mc.callees = mr.direct, mr.eff, mr.params, mr.callees
        mc.fallback = ModRef(cur)
        mc.fallback.seen = mc.seen
        self.mr = mr
        self.R, self.C = Side(ref, mr, 'reference'), Side(cur, mc, 'current')
        self.common = {k for k in ref.funcs if k in cur.funcs and sig(ref.funcs[k]) == sig(cur.funcs[k])}
        for k in self.common:
            a = retpath(ref.funcs[k])
            if a and a == retpath(cur.funcs[k]):
                self.R.retpath[k] = self.C.retpath[k] = a
        virt = set()
        for P in (ref, cur):
            for c in P.classes.values():
                for m in c['methods']:
                    if m['fn'] not in P.funcs or 'body' not in P.funcs[m['fn']]:
                        virt.add(m['fn'])
        self.virt = virt
        self.opaque0 = (self.common | virt) - {k for P in (ref, cur) for k in self.common if always_throws(P.funcs[k])}
        self.cmp = Comparer(seed)
        self.cmp.keyed = mr.keyed
        self.cmp.effect = lambda q: bool(mr.info_q(q)[0])
        del VARIANTS[:]
        collect_variants(ref)
        collect_variants(cur)
        self.rvocab = self._small = None
        self.memo = {}

    def body_fns(self):
        return [k for k in self.common if 'body' in self.ref.funcs[k] and 'body' in self.cur.funcs[k]]

    def same_text(self, k):
        a, b = self.ref.funcs[k], self.cur.funcs[k]
        return strip(a) == strip(b)

    def small(self):
        """functions inlined at level 1: short, loop-free in both programs"""
        if self._small is None:
            s = set()
            for k in self.body_fns():
                try:
                    n = 0
                    for side in (self.R, self.C):
                        paths, syms, _, _, _ = side.summary(k, self.opaque0, 0)
                        n = max(n, len(paths))
                        if ('h', 'loop') in syms:
                            n = 99
                    if n <= 4:
                        s.add(k)
                except Exception:
                    pass
            self._small = s
        return self._small

    def observers(self):
        """functions inlined first: short, loop-free, effect-free in both programs (predicates, getters)"""
        return {k for k in self.small() if not self.mr.info0(self.ref.funcs[k]['q'], k)[0]
                and not (self.C.mr.fallback.info0(self.cur.funcs[k]['q'], k)[0])}

    def at(self, k, mode, opaque, kc=None):
        try:
            R, rs, _, ru, ra = self.R.summary(k, opaque, mode)
            C, cs, vis, cu, ca = self.C.summary(kc or k, opaque, mode)
        except Undecided as ex:
            return 'und', str(ex)
        if not R or not C:
            return 'und', 'no path found'
        self.cmp.deadline = time.time() + 25
        self.cmp.bodies = [all_bodies(R), all_bodies(C)]
        self.cmp.wbodies = [all_bodies(R, True), all_bodies(C, True)]
        self.cmp.outer = [outer_events(R), outer_events(C)]
        try:
            v, d = self.cmp.paths(R, C)
        except RecursionError:
            return 'und', 'terms too deep'
        if v == 'diff' and ra[1] != ca[1]:
            return 'und', 'a loop writes its container in another form'
        if v == 'diff' and (ra[0] or ca[0]):
            return 'und', 'ambiguous loop variables: %s' % d
        if v == 'diff' and {x for x in rs | cs if x[0] == 'lt'} and {x for x in rs if x[0] == 'lt'} != {x for x in cs if x[0] == 'lt'}:
            return 'und', 'a function object with effects changed'
        if v == 'diff' and loop_replaced(R, C):
            return 'und', 'a loop replaced by a library call'
        if v == 'diff':
            new, gone = self.vocab(cs, rs), self.vocab_gone(rs, cs)
            if new and gone and not (new | gone) <= DISTINCT:
                return 'und', 'vocabulary changed: %s for %s' % (sorted(map(str, new))[:4], sorted(map(str, gone))[:4])
            if any(x[0] == 'fld' or x[0] == 'unk' for x in new):
                return 'und', 'new state %s' % sorted(map(str, new))[:4]
        return v, d

    def vocab(self, cs, rs):
        flds, fns = self.known('ref')
        out = set()
        for x in cs - rs:
            if x[0] == 'fld' and x[1] in flds or x[0] == 'fn' and x[1] in fns:
                continue
            out.add(x)
        return out

    def vocab_gone(self, rs, cs):
        flds, fns = self.known('cur')
        return {x for x in rs - cs if not (x[0] == 'fld' and x[1] in flds or x[0] == 'fn' and x[1] in fns)}

    def known(self, which):
        k = '_k' + which
        if not hasattr(self, k):
            P = getattr(self, which)
            flds = {f['n'] for c in P.classes.values() for f in c.get('fields', [])} | {'first', 'second', '$deref', '$val'}
            setattr(self, k, (flds, set(P.by_q) | {m['q'] for c in P.classes.values() for m in c['methods'] if 'q' in m}))
        return getattr(self, k)

    def unchanged(self, k):
        """identical body, and nothing it refers to by value (helpers with a changed signature, tables, member defaults) changed"""
        return self.same_text(k) and \
            not any(c not in self.common and 'body' in self.cur.funcs.get(c, ()) for c in callees_of(self.cur.funcs[k])) and \
            not (self.changed_data() and mentions(self.cur.funcs[k], self.changed_data()))

    def changed_data(self):
        """constants and classes whose initialisers differ from the reference"""
        if not hasattr(self, '_cd'):
            cd = set()
            for q in set(self.ref.globals) | set(self.cur.globals):
                a, b = self.ref.globals.get(q), self.cur.globals.get(q)
                if strip(a and a.get('init')) != strip(b and b.get('init')):
                    cd.add(q)
            fi = lambda c: [(f['n'], strip(f.get('init'))) for f in c['fields']]
            for q in set(self.ref.classes) & set(self.cur.classes):
                if fi(self.ref.classes[q]) != fi(self.cur.classes[q]):
                    cd.add(q)
            self._cd = cd
        return self._cd

    def verdict(self, k, kc=None):
        """-> (verdict, detail) for one common function (kc: the function that took its place in the current program)"""
        m = (k, kc) if kc and kc != k else k
        if m in self.memo:
            return self.memo[m]
        if m == k and self.unchanged(k):
            self.memo[m] = ('eq', None)
            return self.memo[m]
        v, d = self.at(k, 0, self.opaque0, kc)
        if v != 'eq':
            for mode, op in ((3, self.opaque0 - self.observers()), (1, self.opaque0 - self.small()), (2, self.virt)):
                v2, d2 = self.at(k, mode, op, kc)
                if v2 == 'eq':
                    v, d = v2, d2
                    break
                if v2 == 'diff' and v == 'und' and mode != 2 and not str(d).endswith(COMMUTE):
                    v, d = v2, d2
        if v == 'diff' and m == k and self.absorbed(k):
            v, d = 'eq', 'contract changed together with all callers'
        self.memo[m] = (v, d)
        return v, d

    def vtable(self, P, cls):
        """root virtual method -> implementation used by objects of the class"""
        out = {}
        if not hasattr(self, '_m'):
            self._m = {}
        M = self._m.setdefault(id(P), {})
        if not M:
            M.update({m['fn']: m for c in P.classes.values() for m in c['methods'] if m.get('fn')})

        def root(fn):
            m = M.get(fn)
            return root(m['overrides'][0]) if m and m.get('overrides') else fn

        def go(q):
            c = P.classes.get(q)
            if not c:
                return
            for b in c['bases']:
                go(b)
            for m in c['methods']:
                if m.get('fn') and not m['name'].startswith('~') and (m.get('overrides') or P.overriders.get(m['fn'])):
                    out[root(m['fn'])] = m['fn']
        go(cls)
        return out

    def rebound(self, cls):
        """virtual methods of a class now implemented by another function: [(reference impl, current impl)]"""
        if cls not in self.ref.classes or cls not in self.cur.classes:
            return []
        a, b = self.vtable(self.ref, cls), self.vtable(self.cur, cls)
        return [(a[r], b[r]) for r in a if r in b and a[r] != b[r]]

    def callers(self):
        if not hasattr(self, '_callers'):
            self._callers = {}
            for P in (self.ref, self.cur):
                for q, f in P.funcs.items():
                    if 'body' in f:
                        for c in callees_of(f):
                            self._callers.setdefault(c, set()).add(q)
        return self._callers

    def absorbed(self, k):
        """a changed contract: callers were changed with it, and every caller behaves as before with the callee inlined"""
        cs = self.callers().get(k, set()) - {k}
        if not cs or k in self.virt or len(cs) > 12 or not all(c in self.common and 'body' in self.ref.funcs[c] and 'body' in self.cur.funcs[c] for c in cs):
            return False
        if not any(not self.same_text(c) for c in cs):
            return False
        changed = {c for c in self.common if 'body' in self.ref.funcs[c] and 'body' in self.cur.funcs[c] and not self.same_text(c)}
        for c in cs:
            ops = [self.opaque0 - {k}, self.opaque0 - (changed - {c})]
            if not any(self.at(c, ('abs', k, i), op)[0] == 'eq' for i, op in enumerate(ops)):
                return False
        return True


def sig(f):
    return (f.get('ret'), tuple(p.get('t') for p in f['params']), f.get('const'))


PLACE = re.compile(r'((?:lambda|unnamed \w+|anonymous \w+) at )[^()]*')


def strip(n):
    if isinstance(n, str) and (' at ' in n or '{n' in n or 'char[' in n):
        return re.sub(r'\{n\d+C|(?<=char)\[\d+\]', '', PLACE.sub(r'\1', n))
    if isinstance(n, dict):
        return {k: (re.sub(r'#\d+', '', v) if k == 'id' and isinstance(v, str) else strip(v)) for k, v in n.items()
                if k not in ('line', 'col', 'file', 'end')}
    if isinstance(n, list):
        return [strip(x) for x in n]
    return n


def mentions(n, names):
    if isinstance(n, dict):
        return any(isinstance(v, str) and v in names or not isinstance(v, str) and mentions(v, names) for k, v in n.items() if k != 'file')
    if isinstance(n, list):
        return any(mentions(x, names) for x in n)
    return False


def callees_of(f):
    out = set()

    def go(n):
        if isinstance(n, dict):
            if n.get('fn'):
                out.add(n['fn'])
            for v in n.values():
                go(v)
        elif isinstance(n, list):
            for x in n:
                go(x)
    go(f.get('body'))
    return out
