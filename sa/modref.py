"""Mod/ref effects per function: which fields a call may change or read, transitively over the call graph.

The direct effects come from the function's own summary (all repo calls opaque), so writes through references and
iterators are attributed to the field they reach."""
import re
from engine import Engine, PathLimit, flatten
from terms import subterms

NET, IN, OUT = '$net', '$in', '$out'
# effects of primitives the sources use without a body in the repository, or whose body is I/O
PRIM = [
    (re.compile(r'^TCP::'), ({NET}, {NET})),
    (re.compile(r'(^|::)(Messenger|ThreadMessenger|ThreadQueue)(<.*>)?::'), ({NET}, {NET})),
    (re.compile(r'^linenoise|^Linenoise'), ({IN}, {IN})),
]
# the debuggee as seen through the Process interface: readers observe it, the rest change it
OBSERVERS = {'ReadText', 'ReadMemory', 'FetchRegisters', 'FetchFloatRegisters', 'FetchDebugRegisters', 'TextSize', 'GetReason', 'GetRegister'}
STD_IO = re.compile(r'(^|::)(getline|get|recv|send|accept|connect|socket|bind|listen|close|read|write|exit|join|seekg|clear|rdbuf|unget|putback|peek)$')


class ModRef:
    def __init__(self, P, vm='$vm'):
        self.P = P
        self.seen, self.fallback = {}, None
        self.direct, self.calls = {}, {}
        self.memo = {}
        self.params = {}
        self.whole = {}         # fields a function writes other than through an element of a container
        for fid, f in P.funcs.items():
            if 'body' not in f:
                continue
            self.direct[fid] = self._direct(f)
        # transitive closure
        self.eff = {k: (set(v[0]), set(v[1])) for k, v in self.direct.items()}
        callees = {k: self._resolve(v[2]) for k, v in self.direct.items()}
        self.callees = callees
        again = True
        while again:
            again = False
            for k, cs in callees.items():
                m, r = self.eff[k]
                n = len(m) + len(r)
                for c in cs:
                    if isinstance(c, tuple):
                        m |= c[0]
                        r |= c[1]
                    else:
                        m |= self.eff[c][0]
                        r |= self.eff[c][1]
                if len(m) + len(r) != n:
                    again = True

    def _direct(self, f):
        e = Engine(self.P, noinline_pred=lambda q, n: True, max_paths=1500)
        mod, ref, calls = set(), set(), set()
        mparams, mthis = set(), False
        e.loopx = True

        whole = self.whole[f['fn']] = set()

        def note(loc):
            mod.add(e.lname(loc))
            l = loc
            while l[0] in ('idx', 'elem', 'fld'):
                if l[0] == 'idx':
                    return
                l = l[1]
            whole.add(e.lname(loc))

        def hook(st, fr, node, q, recv, args, objloc=None, locs=()):
            calls.add((q, node.get('fn')))
            for i, l in enumerate(locs):
                if l is not None and i < len(node.get('pt', [])) and not node['pt'][i].startswith('const '):
                    rt = e.root(l)
                    if rt[0] == 'sym':
                        mparams.add(rt[1])
                    elif not e.local(l):
                        mod.update(e.fields_of(l))
                        whole.update(e.fields_of(l))
            return orig(st, fr, node, q, recv, args, objloc)
        orig = e.opaque_call
        e.opaque_call = hook
        try:
            paths = e.run(f)
        except (PathLimit, RecursionError):
            return {'*'}, {'*'}, calls, None
        except Exception:
            return {'*'}, {'*'}, calls, None
        def scan(t):
            for x in subterms(t):
                if x[0] == 'fld' and isinstance(x[2], str) and not x[2].startswith('$'):
                    ref.add(x[2])
                elif x[0] == 'call' and isinstance(x[1], str) and STD_IO.search(x[1]):
                    mod.add(IN if 'get' in x[1] else NET)
        for p in paths:
            for a in p.lits:
                scan(a)
            def loops(evs):
                for ev in evs:
                    if ev.kind == 'loop':
                        if ev.recv:
                            scan(ev.recv)
                        for li, body, upd in ev.args:
                            for x in li:
                                if isinstance(x, tuple):
                                    scan(x[0])
                            for m, v, *_ in upd or ():
                                scan(v)
                                if not e.local(m) and e.fields_of(m):
                                    note(m)
                            loops(body)
            loops(p.events)
            for ev in p.flat():
                if ev.kind in ('write', 'mut') and isinstance(ev.recv, tuple):
                    fs = e.fields_of(ev.recv)
                    rt = e.root(ev.recv)
                    if e.local(ev.recv):
                        continue
                    names = [x for x in fs if not x.startswith('$')]
                    if names:
                        note(ev.recv)
                    else:
                        mod.add('$' + str(rt))
                        whole.add('$' + str(rt))
                    if rt[0] == 'sym':
                        mparams.add(rt[1])
                elif ev.kind == 'out':
                    mod.add(OUT)
                elif ev.kind in ('lock', 'unlock'):
                    mod.add('$lock')
                for a in ev.args:
                    if isinstance(a, tuple):
                        scan(a)
            for k, v in p.store.items():
                if not e.local(k):
                    if k[0] == 'sym':
                        mparams.add(k[1])
                    elif e.root(k)[0] == 'sym':
                        mparams.add(e.root(k)[1])
                    if e.fields_of(k):
                        note(k)
                    scan(v)
            for x in p.out[1:]:
                if isinstance(x, tuple):
                    scan(x)
        for u in e.unmodelled:
            if STD_IO.search(u):
                mod.add(IN if 'get' in u else NET)
        self.params[f['fn']] = mparams
        return mod, ref, calls, mparams

    def _resolve(self, calls):
        out = set()
        for q, fn in calls:
            p = self._prim(q)
            if p is not None:
                out.add((frozenset(p[0]), frozenset(p[1])))
                continue
            for t in self.targets(fn):
                out.add(t)
        return out

    def targets(self, fn):
        r = [fn] if fn in self.direct else []
        todo = [fn]
        while todo:
            for m in self.P.overriders.get(todo.pop(), []):
                if m['fn'] not in r:
                    todo.append(m['fn'])
                    if m['fn'] in self.direct:
                        r.append(m['fn'])
        return r

    def _prim(self, q):
        cls, _, name = q.rpartition('::')
        if cls == 'Process' or cls.endswith('::Process'):
            return (set(), {'$vm'}) if name in OBSERVERS else ({'$vm'}, {'$vm'})
        for rx, eff in PRIM:
            if rx.search(q):
                return eff
        return None

    def throws(self, q, fn):
        """exception types a call may raise (transitively, handlers inside the callee ignored); '?' = any"""
        if not hasattr(self, '_throws'):
            self._throws = {}
        k = (q, fn)
        if k in self._throws:
            return self._throws[k]
        out = self._throws[k] = set()
        ts = self.targets(fn)
        if not ts:
            if self.fallback is not None and self._prim(q) is None:
                self._throws[k] = self.fallback.throws(q, fn)
                return self._throws[k]
            out.add('?')
            return out
        seen, todo = set(), list(ts)
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            thrown(self.P.funcs[t].get('body'), out)
            for c in self.callees.get(t, ()):
                if isinstance(c, tuple):
                    if NET in c[0] or '$vm' in c[0] | c[1]:
                        out.add('?')
                else:
                    todo.append(c)
        return out

    def keyed(self, q1, q2):
        """do two calls conflict only through elements of containers (which may well be different elements)?"""
        (m1, r1), (m2, r2) = self.info_q(q1), self.info_q(q2)
        x = m1 & (m2 | r2) | m2 & r1
        if not x or '*' in x or any(f.startswith('$') for f in x):
            return False
        return not (x & (self.whole_q(q1) | self.whole_q(q2)))

    def whole_q(self, q):
        out, seen, todo = set(), set(), [t for fn in self.seen.get(q, ()) for t in self.targets(fn)]
        while todo:
            t = todo.pop()
            if t in seen or isinstance(t, tuple):
                continue
            seen.add(t)
            out |= self.whole.get(t, set())
            todo += list(self.callees.get(t, ()))
        return out

    def info_q(self, q):
        m, r = set(), set()
        for fn in self.seen.get(q, ()):
            i = self.info(q, fn)
            m |= i[0]
            r |= i[1]
        if q not in self.seen:
            return {'*'}, {'*'}
        return m, r

    def info(self, q, fn):
        self.seen.setdefault(q, set()).add(fn)
        if self.fallback is not None and not self.targets(fn) and self._prim(q) is None:
            return self.fallback.info(q, fn)
        return self.info0(q, fn)

    def info0(self, q, fn):
        """(fields changed, fields read, changed parameter indices, receiver changed?)"""
        k = (q, fn)
        if k in self.memo:
            return self.memo[k]
        p = self._prim(q)
        ts = self.targets(fn)
        if p is not None:
            r = (set(p[0]), set(p[1]), set(range(8)) if p[0] else set(), bool(p[0]))
        elif not ts:
            r = ({'*'}, {'*'}, set(range(8)), True)
        else:
            mod, ref, mp = set(), set(), set()
            for t in ts:
                mod |= self.eff[t][0]
                ref |= self.eff[t][1]
                pr = self.params.get(t)
                if pr is None:
                    mp |= set(range(8))
                else:
                    mp |= {int(x[3:]) for x in pr if isinstance(x, str) and x.startswith('arg')}
            f = self.P.funcs.get(fn) or {}
            r = (mod, ref, mp, bool(mod) and not f.get('const'))
        self.memo[k] = r
        return r


STD_THROW = {'at': 'std::out_of_range', 'stoi': 'std::invalid_argument', 'stoll': 'std::invalid_argument', 'stoul': 'std::invalid_argument',
             'stoull': 'std::invalid_argument', 'stol': 'std::invalid_argument', 'stod': 'std::invalid_argument'}


def thrown(n, out):
    if isinstance(n, dict):
        if n.get('k') == 'throw':
            out.add(n.get('tt') or '?')
        elif n.get('k') == 'call' and str(n.get('q', '')).startswith('std::'):
            x = STD_THROW.get(n['q'].split('::')[-1])
            if x:
                out.add(x)
        for v in n.values():
            thrown(v, out)
    elif isinstance(n, list):
        for x in n:
            thrown(x, out)
