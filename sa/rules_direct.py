"""Rules stated on the current source alone (no reference): lock discipline, reference stability, effect confinement, checked indexing,
request/response pairing."""
from engine import Engine, PathLimit, _tclean
from terms import subterms, I
from load import AnalysisError
import stdmodel

LOCKS = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock')
SYNC = ('std::mutex', 'std::recursive_mutex', 'std::condition_variable', 'std::condition_variable_any', 'std::shared_mutex')


def children(n):
    if isinstance(n, dict):
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield v
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield v


def nodes(n):
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            yield x
        todo += list(children(x))


# ------------------------------------------------------------------------------------------------ lock discipline
class Locks:
    """Flow analysis of held mutexes through one function (scoped locks, explicit lock()/unlock(), branches joined by intersection)."""

    def __init__(self, P, guarded, f, calls):
        self.P, self.guarded, self.f, self.calls = P, guarded, f, calls
        self.alias, self.lockvars = {}, {}
        self.acc, self.bad, self.unknown = 0, [], []
        self.walk(f.get('body'), frozenset())

    def path(self, n):
        k = n.get('k')
        if k == 'this':
            return 'this'
        if k == 'var':
            return self.alias.get(n['id'], n['id'])
        if k == 'fld':
            b = self.path(n['b'])
            return b and b + '.' + n['n']
        if k in ('cast', 'paren') and n.get('e'):
            return self.path(n['e'])
        if k == 'un' and n.get('op') in ('*', '&'):
            return self.path(n['e'])
        return None

    def walk(self, n, held):
        if not isinstance(n, (dict, list)):
            return held
        if isinstance(n, list):
            for c in n:
                held = self.walk(c, held)
            return held
        k = n.get('k')
        if k == 'block':
            h = held
            mine = set()
            for c in n['b']:
                h = self.walk(c, h)
                if c and c.get('k') == 'decl':
                    mine |= {self.lockvars[v['id']] for v in c['vars'] if v.get('id') in self.lockvars}
            return frozenset(x for x in h if x not in mine or x in held)
        if k == 'decl':
            for v in n['vars']:
                ini = v.get('init')
                held = self.walk(ini, held)
                if v.get('cls') in LOCKS and ini and ini.get('args'):
                    ps = [self.path(a) for a in ini['args'][:1 if v['cls'] != 'std::scoped_lock' else None]]
                    p = ps[0]
                    self.lockvars[v['id']] = p
                    if not any('defer_lock' in a.get('t', '') for a in ini['args']):
                        held = held | {x or '?' for x in ps}
                elif ini and isinstance(ini, dict) and (v.get('ref') or '&' in v.get('t', '')):
                    p = self.path(ini)
                    if p:
                        self.alias[v['id']] = p
            return held
        if k == 'if':
            for x in ('init', 'c', 'cond'):
                if isinstance(n.get(x), dict):
                    held = self.walk(n[x], held)
            outs = [self.walk(n[x], held) if isinstance(n.get(x), (dict, list)) else held for x in ('t', 'e', 'then', 'else') if x in n]
            outs = outs + ([held] if not isinstance(n.get('else'), dict) else [])
            r = outs[0]
            for o in outs[1:]:
                r = r & o
            return r
        if k == 'call':
            obj = n.get('obj')
            name = n.get('q', '').split('::')[-1]
            if obj is not None:
                p = self.path(obj)
                if name in ('lock', 'unlock'):
                    m = self.lockvars.get(obj.get('id')) if obj.get('k') == 'var' and obj.get('id') in self.lockvars else p if n.get('cls') in SYNC else None
                    if m:
                        return held | {m} if name == 'lock' else held - {m}
            for c in children({x: y for x, y in n.items()}):
                held = self.walk(c, held)
            if n.get('fn') in self.P.funcs:
                self.calls.setdefault(n['fn'], []).append((self.f, n.get('line'), bool(held)))
            return held
        if k == 'fld' and n.get('cls') in self.guarded and n['n'] in self.guarded[n['cls']][0]:
            self.acc += 1
            b = self.path(n['b'])
            need = [b + '.' + m for m in self.guarded[n['cls']][1]] if b else []
            if b is None:
                self.unknown.append(n)
            elif not (set(need) & held) and '?' not in held:
                self.bad.append((n, b, bool(held)))
            return self.walk(n['b'], held)
        if k == 'lambda':
            for b in n.get('bodies', []):
                self.walk(b.get('body'), held)
            return held
        for c in children(n):
            held = self.walk(c, held)
        return held


def lockset(ctx):
    P = ctx.P
    ctx.rule('lock discipline', 'in every class that carries a mutex next to data, each access to the data happens while that object\'s mutex is held (scoped or explicit lock, or every caller holds a lock)')
    guarded = {}
    for q, c in P.classes.items():
        ms = [f['n'] for f in c['fields'] if f['cls'] in SYNC[:2] + SYNC[4:]]
        ds = [f['n'] for f in c['fields'] if f['cls'] not in SYNC and f['n'] not in ms]
        if ms and ds:
            guarded[q] = (ds, ms)
    if not guarded:
        ctx.undecided('no class with a mutex', '')
        return
    calls, res = {}, []
    for k, f in sorted(P.funcs.items()):
        if 'body' not in f or f.get('kind') in ('ctor', 'dtor') and f.get('cls') in guarded:
            continue
        L = Locks(P, guarded, f, calls)
        if L.acc:
            res.append((f, L))
            ctx.functions.add(f['q'])
    n = 0
    for f, L in res:
        where = 'src/%s:%s' % (f.get('file'), f.get('line'))
        n += L.acc
        for x in L.unknown:
            ctx.undecided('%s: access to %s' % (f['q'], x['n']), where)
        if not L.bad:
            ctx.ok('%s: %d accesses under lock' % (f['q'], L.acc), where)
            continue
        cs = calls.get(f['fn'], [])
        over = [c for o in f.get('overrides', []) for c in calls.get(o, [])]
        if cs and not over and not f.get('overrides') and all(h for _, _, h in cs):
            ctx.ok('%s: called with the lock held' % f['q'], where)
            continue
        x, b, h = L.bad[0]
        if h:
            # another mutex is held: it may be the same object under another name
            wrong = b.startswith('this.')
            ctx.ob(False if wrong else None, '%s.%s without its mutex in %s' % (x['cls'], x['n'], f['q']), 'src/%s:%s' % (f.get('file'), x.get('line')), 'the data of %s is accessed while another mutex is held' % b)
        else:
            ctx.bad('%s.%s without its mutex in %s' % (x['cls'], x['n'], f['q']), 'src/%s:%s' % (f.get('file'), x.get('line')),
                    'the data of %s is accessed while no mutex is held' % b)
    ctx.accesses = n


# ------------------------------------------------------------------------------------------------ reference stability
def stable_refs(ctx):
    P = ctx.P
    ctx.rule('reference stability', 'a container whose elements are referred to by reference or pointer from another field must keep its elements in place (node based), because entries are added while the references are in use')
    import re
    flds = [(q, f) for q, c in P.classes.items() for f in c['fields'] if q.startswith('tiny::t86')]
    n = 0
    for q, f in flds:
        m = re.search(r'(?:std::reference_wrapper<(?:const )?([\w:]+)>|[<,] ?(?:const )?([\w:]+) ?[&*]>)', f['t'])
        t = m and (m.group(1) or m.group(2))
        if not t or t not in P.classes:
            continue
        # what can hold objects of that type by value, reachable from the same class
        for q2, g in flds:
            g2 = re.match(r'std::(vector|deque|list|map|unordered_map|set|array)<(.*)>$', g['t'])
            if not g2 or not re.search(r'(^|[<, ])' + re.escape(t) + r'([>, ]|$)', g2.group(2)) or re.search(re.escape(t) + r' ?[&*]', g2.group(2)):
                continue
            if q2 != q and not any(q2 in h['t'] for x, h in flds if x == q):
                continue
            n += 1
            ctx.functions.add(q)
            what = '%s.%s refers to elements of %s.%s' % (q.split('::')[-1], f['n'], q2.split('::')[-1], g['n'])
            if g2.group(1) == 'vector' and t in g2.group(2).split('<')[0].split(',')[0]:
                ctx.bad(what, 'src class %s' % q2, '%s is a %s: adding an element moves the others and leaves the references dangling' % (g['n'], g['t']))
            else:
                ctx.ok(what + ' (%s)' % g2.group(1), q2)
    if not n:
        ctx.undecided('no field refers to elements of a container', '')


# ------------------------------------------------------------------------------------------------ effect confinement
RETIRE_ONLY = {'$out': 'standard output', 'halted_': 'the halt state', 'interrupted_': 'the interrupt line', 'mem_': 'memory', 'program_': 'the program text'}


def confined(ctx):
    P = ctx.P
    import rules_conf
    mr = rules_conf.conf(P).C.mr
    ctx.rule('effect confinement', 'the speculative stages of an instruction (execute, operands, produces, needsAlu) reach, over the call graph and all overriders, no write to memory, program text, output, halt or interrupt state')
    byq = {}
    for k, f in P.funcs.items():
        if 'body' in f and f.get('cls') and P.derives(f['cls'], 'tiny::t86::Instruction') and f['q'].split('::')[-1] in ('execute', 'operands', 'produces', 'needsAlu'):
            byq.setdefault(f['q'], k)
    if len(byq) < 20:
        raise AnalysisError('only %d speculative stages found' % len(byq))
    for q, k in sorted(byq.items()):
        f = P.funcs[k]
        ctx.functions.add(q)
        where = 'src/%s:%s' % (f.get('file'), f.get('line'))
        m = mr.eff.get(k, (set(), set()))[0]
        if '*' in m:
            ctx.undecided(q, where, 'effects not bounded')
            continue
        hit = sorted(set(m) & set(RETIRE_ONLY))
        if hit:
            ctx.bad('%s changes %s before retirement' % (q, RETIRE_ONLY[hit[0]]), where, 'reaches a write of %s: %s' % (hit[0], ' -> '.join(chain(mr, P, k, hit[0]))))
        else:
            ctx.ok(q, where)


def chain(mr, P, k, x, depth=0):
    f = P.funcs[k]
    if depth > 8 or x in mr.direct[k][0]:
        return [f['q']]
    for c in mr.callees.get(k, ()):
        if not isinstance(c, tuple) and x in mr.eff[c][0]:
            return [f['q']] + chain(mr, P, c, x, depth + 1)
    return [f['q']]


# ------------------------------------------------------------------------------------------------ checked indexing
def words(ctx):
    P = ctx.P
    from terms import subst, TRUE, FALSE
    ctx.rule('command words are counted before they are used', 'in every command handler, a command word is taken by a constant position only on paths whose conditions rule out that the line has too few words')
    fs = [f for k, f in sorted(P.funcs.items()) if 'body' in f and f.get('file', '').startswith('dbg-cli/') and
          any(n.get('k') == 'call' and n.get('q') in ('utils::split_v', 'utils::split') for n in nodes(f['body']))]

    def keep(q, n):
        gs = P.fns(q)
        return not (gs and all('body' in g and g.get('file', '').startswith('dbg-cli/') and
                               (any('vector<std::basic_string' in t for t in g.get('pt') or []) or guards(g)) for g in gs))

    def guards(g):
        """a small helper that may throw (an extracted check)"""
        ns = list(nodes(g['body']))
        return len(ns) < 60 and any(n.get('k') == 'throw' or n.get('fn') in P.throwers() for n in ns)
    for f in fs:
        e = Engine(P, noinline_pred=keep, max_paths=1500)
        e.loopx = True
        acc = {}
        ctx.functions.add(f['q'])

        def idx(s, v, k, where, acc=acc):
            if v[0] != 'ret' or v[1] not in ('utils::split_v', 'utils::split'):
                return
            ok = True
            for n in range(0, k + 1):
                sat = True
                for a, want in s.lits.items():
                    if not any(x == v for x in subterms(a)):
                        continue
                    b = subst(a, {('size', v): I(n), ('empty', v): TRUE if n == 0 else FALSE})
                    if b in (TRUE, FALSE):
                        if (b == TRUE) != bool(want):
                            sat = False
                            break
                        continue
                    # what remains may only speak about words that exist
                    rest = subst(b, {('at', v, I(i)): ('sym', 'word%d' % i) for i in range(n)})
                    if any(x == v for x in subterms(rest)):
                        if any(x[0] == 'at' and x[1] == v and x[2][0] == 'int' and x[2][1] >= n for x in subterms(rest)):
                            sat = False     # an earlier access has already failed
                            break
                        sat = None
                if sat:
                    ok = (n, s.lits)
                    break
                if sat is None and ok is True:
                    ok = None
            old = acc.get((where, k), True)
            if old is True or old is None and ok is not True and ok is not None:
                acc[(where, k)] = ok
        e.on_index = idx
        try:
            e.run(f)
        except PathLimit:
            ctx.undecided(f['q'], 'src/%s:%s' % (f['file'], f['line']), 'path limit')
        for (w, k), ok in sorted(acc.items()):
            where = 'src/%s:%s' % (w[0], w[1])
            if ok is True:
                ctx.ok('%s: word %d' % (f['q'], k), where)
            elif ok is None:
                ctx.undecided('%s: word %d' % (f['q'], k), where)
            else:
                ctx.bad('%s takes command word %d without checking that it is there' % (f['q'], k), where, 'reachable with %d words' % ok[0])
    ctx.floor('command words are counted before they are used', 15)


# ------------------------------------------------------------------------------------------------ defined input
def defined_input(ctx):
    P = ctx.P
    ctx.rule('defined input', 'a value read from a stream by an instruction is defined even at the end of input (the target variable is initialised, or the stream is checked)')
    n = 0
    for k, f in sorted(P.funcs.items()):
        if 'body' not in f or not f.get('cls') or not P.derives(f['cls'], 'tiny::t86::Instruction'):
            continue
        if not any(x.get('k') in ('call', 'opcall', 'op') and 'istream' in str(x.get('q')) + str(x.get('cls')) + str(x.get('fn')) for x in nodes(f['body'])):
            continue
        e = Engine(P, noinline_pred=lambda q, m: True, max_paths=500)
        n += 1
        ctx.functions.add(f['q'])
        where = 'src/%s:%s' % (f['file'], f['line'])
        try:
            bad = None
            for p in e.run(f):
                if any(x[0] == 'ret' and x[1] == 'stream.in' or x[0] == 'call' and 'stream' in str(x[1]) for a in p.lits for x in subterms(a)):
                    continue
                for ev in p.flat():
                    if ev.kind == 'call' and ev.name != 'stream.in' and any(x[0] == 'ret' and x[1] == 'stream.in' and len(x[3]) > 1 and x[3][1][0] == 'undef' for a in ev.args if isinstance(a, tuple) for x in subterms(a)):
                        bad = ev
            if bad:
                ctx.bad('%s uses an uninitialised value at the end of input' % f['q'], where, 'flows into %s' % bad.name)
            else:
                ctx.ok(f['q'], where)
        except PathLimit:
            ctx.undecided(f['q'], where, 'path limit')
    if not n:
        ctx.undecided('no instruction reads a stream', '')


# ------------------------------------------------------------------------------------------------ scope order
def scope_order(ctx):
    P = ctx.P
    name = 'variables of a scope before its nested scopes'
    ctx.rule(name, 'a function that walks the DIE tree recursively and records entries by name, later ones replacing earlier ones, does not treat variables and nested scopes of one DIE in the order they were written')
    n = 0
    for k, f in sorted(P.funcs.items()):
        if 'body' not in f:
            continue
        dies = {p['id'] for p in f['params'] if p.get('cls') == 'DIE'}
        maps = {p['id'] for p in f['params'] if p.get('cls') == 'std::map' and 'DIE' in p['t']}
        if not dies or not maps:
            continue
        replacing = any(x.get('k') == 'call' and x.get('q') in ('std::map::insert_or_assign', 'std::map::operator[]') and (x.get('obj') or {}).get('id') in maps or
                        x.get('k') in ('index', 'opcall') and any(y.get('id') in maps for y in nodes(x) if y.get('k') == 'var') for x in nodes(f['body']))
        loops = [x for x in nodes(f['body']) if x.get('k') in ('for', 'rangefor', 'while') and
                 any(y.get('k') == 'var' and y.get('id') in dies for y in nodes(x)) and any(y.get('fn') == k for y in nodes(x))]
        if not replacing or not loops:
            continue
        n += 1
        ctx.functions.add(f['q'])
        where = 'src/%s:%s' % (f['file'], f['line'])
        if len(loops) > 1:
            ctx.ok('%s walks the entries of a DIE in %d passes' % (f['q'], len(loops)), where)
        elif any(x.get('k') in ('if', 'cond', 'switch', 'continue', 'lambda') for x in nodes(loops[0])) or any('sort' in str(x.get('q')) or 'partition' in str(x.get('q')) for x in nodes(f['body'])):
            ctx.undecided(f['q'], where, 'the entries are told apart in some way')
        else:
            ctx.bad('%s records variables and nested scopes in the order they were written' % f['q'], where, 'a variable written after a nested scope replaces the one of that scope')
    if not n:
        ctx.undecided('no recursive walk over the DIE tree found', '')


RULES = {'C25': [words], 'C03': [defined_input], 'C26': [lockset], 'C09': [stable_refs], 'C06': [confined], 'C20': [scope_order]}
