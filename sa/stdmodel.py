"""Models of the standard library and fmt, in terms of the value-number domain."""
import re
from terms import *
from engine import Event, _tclean, INT_T, FLOAT_T, sign_of, match

SEQ = {'std::vector', 'std::list', 'std::deque', 'std::array', 'std::basic_string', 'std::basic_string_view', 'std::span', 'std::initializer_list'}
MAP = {'std::map', 'std::unordered_map', 'std::multimap'}
SET = {'std::set', 'std::unordered_set', 'std::multiset'}
ADAPT = {'std::queue', 'std::stack', 'std::priority_queue'}
PTR = {'std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr'}
ITER = re.compile(r'(__normal_iterator|_Rb_tree_(const_)?iterator|_List_(const_)?iterator|_Node_(const_)?iterator|reverse_iterator|_Deque_iterator|_Node_iterator_base)')
STRS = {'std::basic_string', 'std::basic_string_view'}
STREAMS_OUT = {'std::basic_ostream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_iostream', 'std::basic_ofstream'}


def targs_of(t):
    """Top-level template arguments of a type string."""
    t = _tclean(t)
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:]:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
            if d < 0:
                break
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def V(v):
    return ('V', v)


def L(l):
    return ('L', l)


def functor(eng, q, vals, sg):
    n = q.split('::')[1] if q.startswith('std::') else q
    a = vals[0]
    b = vals[1] if len(vals) > 1 else None
    m = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'modulus': '%', 'bit_and': '&', 'bit_or': '|', 'bit_xor': '^'}
    if n in m:
        return op(m[n], a, b, sg)
    c = {'equal_to': '==', 'not_equal_to': '!=', 'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}
    if n in c:
        return eng.cmp(c[n], a, b, sg)
    if n == 'logical_and':
        return AND(eng.tobool(a), eng.tobool(b))
    if n == 'logical_or':
        return OR(eng.tobool(a), eng.tobool(b))
    if n == 'logical_not':
        return NOT(eng.tobool(a, 'int'))
    if n == 'negate':
        return neg(a) if sg != 'f' else ('op', 'fneg', a, a)
    if n == 'bit_not':
        return bnot(a)
    return ('call', q) + tuple(vals)


NPOS = ('global', 'std::basic_string_view::npos')


def size_of(v):
    if v[0] == 'vec':
        return I(len(v[1]))
    if v[0] == 'str':
        return I(len(v[1]))
    if v[0] == 'emptyc':
        return I(0)
    if v[0] == 'push':
        return add(size_of(v[1]), I(1))
    if v[0] == 'fillvec':
        return v[1]
    if v[:2] == ('call', 'substr') and len(v) == 5 and v[3] == I(0) and v[4][:3] == ('call', 'find', v[2]):
        # a prefix that ends at a position found in the string, or the whole string
        return ITE(eq(v[4], NPOS), size_of(v[2]), v[4])
    return ('size', v)


def empty_of(v):
    if v[0] == 'vec':
        return TRUE if not v[1] else FALSE
    if v[0] == 'str':
        return TRUE if not v[1] else FALSE
    if v[0] == 'emptyc':
        return TRUE
    if v[0] in ('push', 'mset', 'lmap'):
        return FALSE
    return ('empty', v)


def lmap(v, ismap):
    if v[0] != 'vec' or not v[1] or len(v[1]) > 64:
        return v
    items = {}
    for x in v[1]:
        if ismap:
            if x[0] != 'rec':
                return v
            d = dict(x[2])
            k, x = d.get('first'), d.get('second')
        else:
            k, x = x, TRUE
        if k is None or x is None or not is_const(k):
            return v
        items.setdefault(k, x)
    return ('lmap', tuple(sorted(items.items(), key=repr)))


def has_of(v, k):
    if v[0] == 'emptyc':
        return FALSE
    if v[0] == 'lmap':
        r = FALSE
        for k2, _ in v[1]:
            r = OR(r, eq(k, k2))
        return r
    if v[0] == 'mset':
        if v[2] == k:
            return TRUE
        if is_const(k) and is_const(v[2]) and eq(k, v[2]) == FALSE:
            return has_of(v[1], k)
    if v[0] == 'mdel' and v[2] == k:
        return FALSE
    return ('has', v, k)


def fmt_cat(f, args, types=()):
    """fmt::format with a literal format string -> cat term."""
    if f[0] != 'str':
        return ('fmt', f) + tuple(args)
    s, i, parts, ai = f[1], 0, [], 0
    cur = ''
    while i < len(s):
        c = s[i]
        if c == '{':
            if i + 1 < len(s) and s[i + 1] == '{':
                cur += '{'
                i += 2
                continue
            j = s.find('}', i)
            spec = s[i + 1:j]
            idx, _, sp = spec.partition(':')
            if idx == '':
                n = ai
                ai += 1
            else:
                n = int(idx) if idx.isdigit() else ai
            a = args[n] if n < len(args) else ('unk', 'fmtarg', 0)
            parts.append(('str', cur))
            cur = ''
            a = tostr(a, types[n] if n < len(types) else None)
            parts.append(a if not sp else ('fmtspec', sp, a))
            i = j + 1
            continue
        if c == '}' and i + 1 < len(s) and s[i + 1] == '}':
            cur += '}'
            i += 2
            continue
        cur += c
        i += 1
    parts.append(('str', cur))
    return cat(*parts)


def is_str(t):
    t = _tclean(t)
    return 'basic_string' in t.split('<')[0] or t in ('char *', 'const char *', 'std::string', 'std::string_view') or t.startswith('char[')


def tostr(a, ty=None):
    if ty is not None and is_str(ty):
        return a
    if a[0] in ('str', 'cat', 'tostr', 'fmtspec', 'fmt'):
        return a
    if a[0] == 'int':
        return ('str', str(a[1]))
    return ('tostr', a)


def known_size(s, v):
    """the number of elements, where the path conditions fix it"""
    n = size_of(v)
    if n[0] == 'int':
        return n[1]
    for a, b in s.lits.items():
        if b and a[0] == 'eq' and n in a[1:]:
            o = a[2] if a[1] == n else a[1]
            if o[0] == 'int':
                return o[1]
        if b and a == ('empty', v):
            return 0
    return None


def opt_cmp(eng, o, ta, tb, a, b):
    """std::optional compared with a value (an empty optional is less than every value)"""
    if is_opt(ta) == is_opt(tb) or 'nullopt' in ta + tb:
        return None
    left = is_opt(ta)
    ov = a if left else b
    h = TRUE if ov[0] == 'some' else FALSE if ov[0] == 'none' else has_value(ov)
    x = eng.proj(ov, '$val')
    if o in ('==', '!='):
        t = AND(h, eq(x, b if left else a))
        return t if o == '==' else NOT(t)
    t = eng.cmp(o, x, b, 's') if left else eng.cmp(o, a, x, 's')
    return OR(NOT(h), t) if (o in ('<', '<=')) == left else AND(h, t)


def is_npos(x):
    return x == I(-1) or x == I((1 << 64) - 1) or 'npos' in str(x) and x[0] == 'global'


def mutate(eng, s, fr, e, name, loc, args, new):
    """Container mutation: new value at loc, and a `mut` effect when the container is not local."""
    eng.write(s, loc, new, None, False)
    if not eng.local(loc):
        s.events.append(Event('mut', name, loc, tuple(args), eng.where(fr, e), len(s.lits)))


def cont_of_iter(it):
    if it[0] in ('begin', 'end', 'rbegin', 'rend'):
        return it[2] if len(it) > 2 else it[1]
    if it[0] in ('iter_any',):
        return it[1]
    if it[0] == 'find':
        return it[3]
    if it[0] == 'itadd':
        return cont_of_iter(it[1])
    return None


def iter_loc(eng, s, it):
    """Loc an iterator designates."""
    h = it[0]
    if h == 'iter_any':
        return ('elem', it[1], it[2])
    if h == 'begin':
        return ('idx', it[2], I(0))
    if h == 'itadd':
        n, base = 0, it
        while base[0] == 'itadd':
            if not isinstance(base[2], int):
                break
            n += base[2]
            base = base[1]
        if base[0] == 'begin':
            return ('idx', base[2], I(n))
        if base[0] == 'end':
            return ('idx', base[2], add(size_of(eng.read(s, base[2])), I(n)))
        return ('fld', it, '$deref')
    if h == 'addr':
        return it[1]
    return ('fld', it, '$deref')


def member_of_iter(eng, s, it):
    """For map iterators obtained by find: pair view."""
    if it[0] == 'find':
        return eng.tmp(s, ('rec', 'pair', (('first', it[2]), ('second', eng.select(it[1], it[2])))))
    return iter_loc(eng, s, it)


def std_call(eng, e, st, fr):
    q = e['q']
    name = q[q.index('::operator ') + 2:] if '::operator ' in q else q.split('::')[-1]
    cls = e.get('cls') or e.get('ocls') or ''
    if e.get('obj') is not None:
        return method(eng, e, st, fr, q, name, cls)
    return free(eng, e, st, fr, q, name)


def with_recv(eng, e, st, fr, f):
    """f(s, loc) with the receiver's loc."""
    if e.get('arrow'):
        return eng.bind(eng.ev(e['obj'], st, fr), lambda s, p: f(s, eng.deref(p)))
    return eng.bind(eng.lv(e['obj'], st, fr), f)


def method(eng, e, st, fr, q, name, cls):
    bnd = eng.bind
    args = e['args']

    def recv_args(f, byref=None):
        return with_recv(eng, e, st, fr, lambda s, loc: bnd(eng.evs(args, s, fr, byref), lambda s2, vs: f(s2, loc, eng.read(s2, loc), vs)))

    if cls in PTR:
        if name in ('operator*', 'operator->'):
            def f(s, loc, v, vs):
                l = v[1] if v[0] == 'addr' else ('fld', v, '$deref')
                return [(s, L(l) if name == 'operator*' else V(('addr', l)))]
            return recv_args(f)
        if name == 'get':
            return recv_args(lambda s, loc, v, vs: [(s, V(v))])
        if name in ('operator bool',):
            return recv_args(lambda s, loc, v, vs: [(s, V(NOT(eq(v, NULL))))])
        if name in ('operator=', 'reset'):
            def f(s, loc, v, vs):
                eng.write(s, loc, vs[0] if vs else NULL, eng.where(fr, e))
                return [(s, L(loc))]
            return recv_args(f)
        if name == 'release':
            def f(s, loc, v, vs):
                eng.write(s, loc, NULL, eng.where(fr, e))
                return [(s, V(v))]
            return recv_args(f)
    if cls == 'std::optional':
        if name in ('operator*', 'value'):
            return recv_args(lambda s, loc, v, vs: [(s, L(('fld', loc, '$val')))])
        if name == 'operator->':
            return recv_args(lambda s, loc, v, vs: [(s, V(('addr', ('fld', loc, '$val'))))])
        if name in ('has_value', 'operator bool'):
            return recv_args(lambda s, loc, v, vs: [(s, V(TRUE if v[0] == 'some' else FALSE if v[0] == 'none' else has_value(v)))])
        if name == 'value_or':
            return recv_args(lambda s, loc, v, vs: [(s, V(ITE(TRUE if v[0] == 'some' else FALSE if v[0] == 'none' else has_value(v), eng.proj(v, '$val') if v[0] in ('some', 'none') else eng.read(s, ('fld', loc, '$val')), vs[0])))])
        if name == 'reset':
            def f(s, loc, v, vs):
                eng.write(s, loc, ('none',), eng.where(fr, e))
                return [(s, V(('void',)))]
            return recv_args(f)
        if name in ('operator=', 'emplace'):
            def f(s, loc, v, vs):
                n = vs[0] if vs else ('dflt', '?')
                if args and 'nullopt_t' in args[0]['t']:
                    n = ('none',)
                elif name == 'emplace' or not is_opt(args[0]['t']):
                    n = ('some', n) if n[0] != 'none' else n
                eng.write(s, loc, n, eng.where(fr, e))
                return [(s, L(loc))]
            return recv_args(f)
    if ITER.search(cls or '') :
        if name == 'operator*':
            return recv_args(lambda s, loc, v, vs: [(s, L(member_of_iter(eng, s, v)))])
        if name == 'operator->':
            def f(s, loc, v, vs):
                if v[0] == 'find':
                    # lvalue view: second writes through to the map
                    t = eng.tmp(s, ('findview', v))
                    return [(s, V(('addr', ('fview', v))))]
                return [(s, V(('addr', member_of_iter(eng, s, v))))]
            return recv_args(f)
        if name in ('operator++', 'operator--'):
            def f(s, loc, v, vs):
                n = ('itadd', v, 1 if name == 'operator++' else -1)
                eng.write(s, loc, n, eng.where(fr, e))
                return [(s, V(v if vs else n))]
            return recv_args(f)
        if name in ('operator+', 'operator-'):
            return recv_args(lambda s, loc, v, vs: [(s, V(itadd(v, vs[0], name == 'operator-')))])
        if name in ('operator+=', 'operator-='):
            def f(s, loc, v, vs):
                eng.write(s, loc, itadd(v, vs[0], name == 'operator-='), eng.where(fr, e))
                return [(s, L(loc))]
            return recv_args(f)
        if name == 'operator=':
            def f(s, loc, v, vs):
                eng.write(s, loc, vs[0], eng.where(fr, e))
                return [(s, L(loc))]
            return recv_args(f)
        if name in ('operator==', 'operator!='):
            return recv_args(lambda s, loc, v, vs: [(s, V(eng.cmp(name[8:], v, vs[0], 's')))])
    if cls == 'std::function':
        if name == 'operator()':
            def f(s, loc, v, vs):
                return eng.apply(v, vs, [None] * len(vs), s, fr, e)
            return recv_args(f)
        if name == 'operator bool':
            return recv_args(lambda s, loc, v, vs: [(s, V(TRUE if v[0] in ('lambda', 'fn') else NOT(eq(v, NULL))))])
    if name == 'operator=' and (cls in SEQ or cls in MAP or cls in SET or cls in ADAPT or cls in ('std::function', 'std::variant', 'std::pair', 'std::tuple',
                                 'std::__exception_ptr::exception_ptr', 'std::thread', 'std::bitset', 'std::reference_wrapper', 'std::atomic')):
        def f(s, loc, v, vs):
            n = vs[0]
            if cls == 'std::variant':
                n = variant_of(eng, e.get('obj', {}).get('t', ''), args[0]['t'], n)
            if cls == 'std::basic_string' and n[0] == 'int':
                n = ('str', chr(n[1]))
            eng.write(s, loc, n, eng.where(fr, e))
            return [(s, L(loc))]
        return recv_args(f)
    if cls in SEQ or cls in ADAPT:
        r = seq_method(eng, e, st, fr, q, name, cls, recv_args)
        if r is not None:
            return r
    if cls in MAP or cls in SET:
        r = map_method(eng, e, st, fr, q, name, cls, recv_args)
        if r is not None:
            return r
    if cls in STREAMS_OUT or cls in ('std::basic_istream', 'std::basic_ios', 'std::basic_istringstream', 'std::basic_ifstream', 'std::ios_base'):
        if name == 'operator<<':
            def f(s, loc, v, vs):
                return stream_out(eng, s, fr, e, loc, vs[0], e['args'][0]['t'] if e.get('args') else None)
            return recv_args(f)
        if name == 'str':
            if args:
                def f(s, loc, v, vs):
                    eng.write(s, loc, vs[0], eng.where(fr, e))
                    return [(s, V(('void',)))]
                return recv_args(f)
            return recv_args(lambda s, loc, v, vs: [(s, V(v))])
        if name in ('operator bool', 'good', 'operator!', 'eof', 'fail'):
            def f(s, loc, v, vs):
                a = ('typed', 'bool', ('call', 'stream.' + ('ok' if name in ('operator bool', 'operator!', 'good', 'fail') else name), v))
                return [(s, V(NOT(a) if name in ('operator!', 'fail') else a))]
            return recv_args(f)
        if name == 'operator>>':
            return with_recv(eng, e, st, fr, lambda s, loc: bnd(eng.evs(args, s, fr, [True]), lambda s2, vs: stream_in(eng, s2, fr, e, loc, vs[0])))
    if cls == 'std::condition_variable':
        def f(s, loc, v, vs):
            s.events.append(Event('call', q, loc, tuple(vs[:1]), eng.where(fr, e), len(s.lits)))
            if name == 'wait' and len(vs) == 2:
                # returns only when the predicate holds
                out = []
                for s2, r in eng.apply(vs[1], [], [], s, fr, e):
                    if s2.out is not None:
                        out.append((s2, None))
                        continue
                    p = eng.read(s2, r[1]) if r[0] == 'L' else r[1]
                    out += [(s3, V(('void',))) for s3, b in eng.branch(eng.tobool(p), s2) if b]
                return out
            return [(s, V(('void',)))]
        return recv_args(f)
    if cls == 'std::numeric_limits' or name in ('max', 'min') and 'numeric_limits' in q:
        return free(eng, e, st, fr, q, name)
    if name == 'operator()' and q.startswith('std::') and cls.startswith('std::') and cls != 'std::function':
        t = e['args'][0]['t'] if e['args'] else 'int'
        if cls == 'std::hash':
            return recv_args(lambda s, loc, v, vs: [(s, V(('call', 'std::hash') + tuple(vs)))])
        return recv_args(lambda s, loc, v, vs: [(s, V(functor(eng, cls, vs, sign_of(_tclean(t)) if _tclean(t) not in FLOAT_T else 'f')))])
    if name == 'operator()':
        def f(s, loc, v, vs):
            if v[0] in ('lambda', 'fn', 'stdop'):
                return eng.apply(v, vs, [None] * len(vs), s, fr, e, [a['t'] for a in args])
            return eng.opaque_call(s, fr, e, q, loc, vs)
        byref = [t.endswith('&') for t in e.get('pt', [])]

        def g(s, loc):
            def h(s2, vs):
                v = eng.read(s2, loc)
                locs = [x if r else None for x, r in zip(vs, byref)]
                vals = [eng.read(s2, x) if r else x for x, r in zip(vs, byref)]
                if v[0] in ('lambda', 'fn', 'stdop'):
                    return eng.apply(v, vals, locs, s2, fr, e, [a['t'] for a in args])
                return eng.opaque_call(s2, fr, e, q, loc, vals)
            return bnd(eng.evs(args, s, fr, byref + [False] * (len(args) - len(byref))), h)
        return with_recv(eng, e, st, fr, g)
    if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        return recv_args(lambda s, loc, v, vs: [(s, V(eng.cmp(name[8:], v, vs[0], 's')))])
    if name.startswith('operator ') and not args:   # conversion
        return recv_args(lambda s, loc, v, vs: [(s, V(v))])
    # unknown method: const -> pure function of the value, else an opaque effect
    eng.unmodelled[q] = eng.unmodelled.get(q, 0) + 1

    external = not q.startswith(('std::', 'fmt::'))

    def f(s, loc, v, vs):
        if external and e.get('targs') and not q.endswith('add_argument'):
            vs = list(vs) + [('str', 'as ' + ', '.join(x for x in e['targs'] if not x.startswith('const char')))]
        if e.get('const'):
            return [(s, V(('call', q, v) + tuple(vs)))]
        n = sum(1 for x in s.events if x.kind == 'call' and x.name == q)
        if eng.local(loc) and external and '::' in (e.get('t') or '') and not e['t'].startswith(('std::', 'fmt::')) and e['t'] not in eng.P.classes:
            return builder(eng, s, loc, v, q, vs)
        if not eng.local(loc) or cls in ('std::thread', 'std::mutex', 'std::unique_lock'):
            s.events.append(Event('call', q, loc, tuple(vs), eng.where(fr, e), len(s.lits)))
        eng.write(s, loc, ('after', q, v) + tuple(vs), None, False)
        return [(s, V(('ret', q, n, (v,) + tuple(vs))))]
    return recv_args(f)


def builder(eng, s, loc, v, q, vs):
    """configuring an object of an external library through the references its methods return: a set of settings"""
    up = s.alias.get(('refp', loc, 0))
    vs = tuple(vs)
    if up is None:
        key = (q, vs, ())
        base, items = (v[1], v[2]) if v[0] == 'opts' else (v, ())
        r = eng.tmp(s, ('call', q, ('str', 'builder')) + vs)
        s.alias[('refp', r, 0)] = (loc, q, vs)
        eng.write(s, loc, ('opts', base, order_opts(items + (key,))), None, False)
        return [(s, ('L', r))]
    par, pq, pvs = up
    o = eng.read(s, par)
    if o[0] == 'opts':
        items = tuple((a, b, tuple(sorted(c + ((q, vs),), key=lambda x: x[0]))) if (a, b) == (pq, pvs) else (a, b, c) for a, b, c in o[2])
        eng.write(s, par, ('opts', o[1], order_opts(items)), None, False)
    return [(s, ('L', loc))]


def order_opts(items):
    named = [i for i in items if i[1] and i[1][0][0] == 'str' and i[1][0][1].startswith('-')]
    return tuple(i for i in items if i not in named) + tuple(sorted(named, key=repr))


def has_value(v):
    if v[0] == 'ite':
        return ITE(v[1], has_value(v[2]), has_value(v[3]))
    if v[0] == 'some':
        return TRUE
    if v[0] == 'none':
        return FALSE
    return ('has_value', v)


def is_opt(t):
    return 'std::optional<' in t.split('(')[0] and _tclean(t).startswith('std::optional')


def itadd(v, n, sub_):
    c = cval(n)
    if c is not None:
        return ('itadd', v, -c if sub_ else c)
    if v[0] == 'begin' and not sub_:
        return ('addr', ('idx', v[2], n))
    return ('itaddv', v, neg(n) if sub_ else n)


def stream_out(eng, s, fr, e, loc, v, ty=None):
    if v[0] == 'fn' or v[0] == 'call' and v[1] in ('std::endl', 'std::flush'):
        if v[0] == 'fn' and not v[2].endswith('endl'):
            return [(s, L(loc))]
        v = ('str', '\n') if v[0] == 'fn' else v
    cur = eng.read(s, loc)
    if eng.local(loc):
        eng.write(s, loc, cat(cur if cur[0] in ('str', 'cat') else ('str', ''), tostr(v, ty)), None, False)
    else:
        s.events.append(Event('out', 'stream', loc, (v,), eng.where(fr, e), len(s.lits)))
    return [(s, L(loc))]


def stream_in(eng, s, fr, e, loc, tgt):
    n = sum(1 for x in s.events if x.kind == 'call' and x.name == 'stream.in')
    s.events.append(Event('call', 'stream.in', loc, (), eng.where(fr, e), len(s.lits)))
    prev = ()
    if _tclean(e['args'][-1].get('t', '')) in ('char', 'unsigned char', 'signed char'):
        prev = (eng.read(s, tgt),)          # at the end of input a character variable keeps its value
    eng.write(s, tgt, ('ret', 'stream.in', n, (eng.read(s, loc),) + prev), eng.where(fr, e))
    return [(s, L(loc))]


def seq_method(eng, e, st, fr, q, name, cls, recv_args):
    args = e['args']
    where = lambda: eng.where(fr, e)
    if name in ('operator[]', 'at'):
        def f(s, loc, v, vs):
            k = vs[0]
            if k[0] == 'idx_any':
                return [(s, L(('elem', loc, k[1])))]
            if eng.on_index and k[0] == 'int':
                eng.on_index(s, v, k[1], eng.where(fr, e))
            if name == 'at' and k[0] == 'int' and known_size(s, v) is not None and not 0 <= k[1] < known_size(s, v):
                s.out = ('throw', 'std::out_of_range', ('exc', v), where())
                return [(s, None)]
            return [(s, L(('idx', loc, k)))]
        return recv_args(f)
    if name in ('front', 'top') and cls != 'std::stack':
        return recv_args(lambda s, loc, v, vs: [(s, L(('idx', loc, I(0))))])
    if name in ('back', 'top'):
        return recv_args(lambda s, loc, v, vs: [(s, L(('idx', loc, add(size_of(v), I(-1)) if v[0] != 'push' else add(size_of(v), I(-1)))) if v[0] != 'push' else V(v[2]))])
    if name in ('size', 'length'):
        return recv_args(lambda s, loc, v, vs: [(s, V(size_of(v)))])
    if name == 'empty':
        return recv_args(lambda s, loc, v, vs: [(s, V(empty_of(v)))])
    if name in ('begin', 'cbegin'):
        return recv_args(lambda s, loc, v, vs: [(s, V(('begin', v, loc)))])
    if name in ('end', 'cend'):
        return recv_args(lambda s, loc, v, vs: [(s, V(('end', v, loc)))])
    if name in ('rbegin', 'rend'):
        return recv_args(lambda s, loc, v, vs: [(s, V((name, v, loc)))])
    if name in ('data', 'c_str'):
        return recv_args(lambda s, loc, v, vs: [(s, V(v if cls in STRS else ('data', v)))])
    if name in ('reserve', 'shrink_to_fit'):
        return recv_args(lambda s, loc, v, vs: [(s, V(('void',)))])
    if name in ('push_back', 'emplace_back', 'push', 'emplace') and (cls not in ('std::vector', 'std::list', 'std::deque') or name != 'emplace'):
        def f(s0, loc, v0, vs):
            out = []
            for s, x in emplaced(eng, e, s0, fr, vs) if cls not in STRS else [(s0, vs[0])]:
                if s.out is not None:
                    out.append((s, None))
                    continue
                v = eng.read(s, loc)
                if cls in STRS:
                    n = cat(v, ('str', chr(x[1])) if x[0] == 'int' else ('chr', x))
                elif v[0] == 'vec':
                    n = ('vec', v[1] + (x,))
                else:
                    n = ('push', v, x)
                mutate(eng, s, fr, e, 'push_back', loc, (x,), n)
                if name == 'emplace_back':
                    out.append((s, L(('idx', loc, add(size_of(v), I(0))))))
                else:
                    out.append((s, V(('void',))))
            return out
        return recv_args(f)
    if name in ('pop_back', 'pop', 'pop_front'):
        def f(s, loc, v, vs):
            nm = 'pop_front' if name == 'pop_front' or (name == 'pop' and cls == 'std::queue') else 'pop_back'
            if v[0] == 'vec' and v[1]:
                n = ('vec', v[1][1:] if nm == 'pop_front' else v[1][:-1])
            elif v[0] == 'push' and nm == 'pop_back':
                n = v[1]
            else:
                n = (nm, v)
            mutate(eng, s, fr, e, nm, loc, (), n)
            return [(s, V(('void',)))]
        return recv_args(f)
    if name == 'clear':
        def f(s, loc, v, vs):
            mutate(eng, s, fr, e, 'clear', loc, (), ('str', '') if cls in STRS else ('vec', ()))
            return [(s, V(('void',)))]
        return recv_args(f)
    if name in ('erase', 'insert', 'resize', 'assign', 'fill', 'remove', 'remove_if', 'splice', 'swap', 'emplace', 'sort', 'append', 'replace', 'remove_prefix', 'remove_suffix'):
        def f(s, loc, v, vs):
            if name in ('remove_prefix',):
                eng.write(s, loc, ('call', 'substr', v, vs[0]), where(), True)
                return [(s, V(('void',)))]
            if name == 'erase' and cls in STRS and args and re.search(r'long|int|size', _tclean(args[0]['t'])) and '<' not in args[0]['t']:
                if len(vs) == 1 or len(vs) == 2 and is_npos(vs[1]):
                    eng.write(s, loc, ('call', 'substr', v, I(0), vs[0]), where(), True)
                    return [(s, L(loc))]
            if name == 'append' and cls in STRS and len(vs) == 1:
                eng.write(s, loc, cat(v, vs[0]), where(), True)
                return [(s, L(loc))]
            if name == 'emplace' and cls not in STRS and vs:
                # emplace(position, arguments...) inserts the object they make
                made = emplaced(eng, dict(e, args=e['args'][1:]), s, fr, list(vs[1:]))
                if len(made) != 1 or made[0][0].out is not None:
                    return [(s, V(('unk', 'emplace', 0)))]
                s, x = made[0]
                v = eng.read(s, loc)
                n = sum(1 for y in s.events if y.kind == 'mut' and y.name == 'insert')
                mutate(eng, s, fr, e, 'insert', loc, (vs[0], x), ('insert', v, vs[0], x))
                return [(s, V(('ret', 'insert', n, (v, vs[0], x))))]
            n = sum(1 for x in s.events if x.kind == 'mut' and x.name == name)
            mutate(eng, s, fr, e, name, loc, vs, (name, v) + tuple(vs))
            if name == 'erase' and len(vs) == 1 and vs[0][0] == 'iter_any':
                return [(s, V(('itadd', vs[0], 1)))]
            return [(s, V(('ret', name, n, (v,) + tuple(vs))))]
        return recv_args(f)
    if name == 'substr':
        return recv_args(lambda s, loc, v, vs: [(s, V(('call', 'substr', v) + tuple(x for i, x in enumerate(vs) if i == 0 or not is_npos(x))))])
    if name in ('starts_with', 'ends_with'):
        def f(s, loc, v, vs):
            if args and _tclean(args[0]['t']) == 'char' and name == 'starts_with':
                return [(s, V(AND(NOT(empty_of(v)), eq(eng.select(v, I(0)), vs[0]))))]
            if v[0] == 'str' and vs[0][0] == 'str':
                return [(s, V(TRUE if getattr(v[1], name.replace('_', ''))(vs[0][1]) else FALSE))]
            return [(s, V((name, v, vs[0])))]
        return recv_args(f)
    if name in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'compare'):
        return recv_args(lambda s, loc, v, vs: [(s, V(('call', name, v) + tuple(vs)))])
    if name == 'operator+=':
        def f(s, loc, v, vs):
            x = vs[0]
            if x[0] == 'int':
                x = ('str', chr(x[1] & 0x7f))
            elif _tclean(args[0]['t']) == 'char':
                x = ('chr', x)
            eng.write(s, loc, cat(v, x), where(), True)
            return [(s, L(loc))]
        return recv_args(f)
    return None


def emplaced(eng, e, s, fr, vs):
    ta = targs_of(e.get('obj', {}).get('t', '')) if e.get('obj') else []
    t = ta[0] if ta else '?'
    if len(vs) == 2 and t.startswith('std::pair'):
        return [(s, ('rec', 'pair', (('first', vs[0]), ('second', vs[1]))))]
    if t in eng.P.classes:
        ats = [_tclean(a['t']) for a in e['args']]
        if len(vs) == 1 and (ats[0] == t or eng.P.derives(ats[0], t)):
            return [(s, vs[0])]
        f = pick_ctor(eng, t, ats)
        if f is not None and not eng.is_opaque(f['q'], e):
            locs = [eng.tmp(s, v) if p.get('ref') else None for p, v in zip(f['params'], vs)]
            loc = eng.tmp(s, ('rec', t, ()))
            return eng.run_ctor(f, t, loc, list(vs), locs, s, fr, e)
        c = eng.P.classes[t]
        if not [m for m in c['methods'] if m.get('kind') == 'ctor' and not m.get('defaulted')] and len(c['fields']) == len(vs):
            return [(s, ('rec', t, tuple(sorted((fd['n'], v) for fd, v in zip(c['fields'], vs)))))]
    if len(vs) == 1:
        return [(s, vs[0])]
    return [(s, ('new', t) + tuple(vs))]


def pick_ctor(eng, cls, ats):
    P = eng.P
    cands = [m for m in P.classes[cls]['methods'] if m.get('kind') == 'ctor' and len(m['pt']) == len(ats) and m.get('fn') in P.funcs
             and not m.get('defaulted') and 'body' in P.funcs[m['fn']]]
    if not cands:
        return None

    def score(m):
        sc = 0
        for p, a in zip(m['pt'], ats):
            p = _tclean(p)
            if p == a:
                sc += 10
            elif (p in INT_T and a in INT_T) or (p in FLOAT_T and a in FLOAT_T) or P.derives(a, p):
                sc += 5
            elif p in INT_T and a in ('bool',):
                sc += 2
            elif p in P.classes and a in P.classes or (p in P.classes and (a in INT_T or a in FLOAT_T)):
                sc -= 5
        return sc
    cands.sort(key=lambda m: -score(m))
    return P.funcs[cands[0]['fn']]


def map_method(eng, e, st, fr, q, name, cls, recv_args):
    args = e['args']
    ismap = cls in MAP
    if name in ('operator[]', 'at') and ismap:
        return recv_args(lambda s, loc, v, vs: [(s, L(('idx', loc, vs[0])))])
    if name in ('find', 'lower_bound', 'upper_bound'):
        def f(s, loc, v, vs):
            h = has_of(v, vs[0]) if name == 'find' else None
            if h == FALSE:
                return [(s, V(('end', v, loc)))]
            return [(s, V(('find', v, vs[0], loc) if name == 'find' else (name, v, vs[0], loc)))]
        return recv_args(f)
    if name in ('end', 'cend', 'begin', 'cbegin', 'rbegin', 'rend'):
        n = name.lstrip('c')
        return recv_args(lambda s, loc, v, vs: [(s, V((n, v, loc)))])
    if name in ('contains', 'count'):
        return recv_args(lambda s, loc, v, vs: [(s, V(has_of(v, vs[0])))])
    if name == 'size':
        return recv_args(lambda s, loc, v, vs: [(s, V(size_of(v)))])
    if name == 'empty':
        return recv_args(lambda s, loc, v, vs: [(s, V(empty_of(v)))])
    if name == 'clear':
        def f(s, loc, v, vs):
            mutate(eng, s, fr, e, 'clear', loc, (), ('emptyc', cls))
            return [(s, V(('void',)))]
        return recv_args(f)
    if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        def f(s, loc, v, vs):
            if ismap:
                if len(vs) == 1 and vs[0][0] == 'rec':
                    d = dict(vs[0][2])
                    k, x = d.get('first', ('unk', 'k', 0)), d.get('second', ('unk', 'v', 0))
                elif len(vs) == 2:
                    k, x = vs
                elif len(vs) == 1:
                    k, x = ('fld', vs[0], 'first'), ('fld', vs[0], 'second')
                else:
                    k, x = vs[0], ('new', '?') + tuple(vs[1:])
            else:
                k = vs[0] if vs else ('unk', 'k', 0)
                x = TRUE
            if ismap and len(args) == 2 and not e.get('cm'):
                ta = targs_of(e['obj']['t']) if e.get('obj') else []
                if len(ta) > 1 and _tclean(ta[1]).startswith('std::variant'):
                    x = variant_of(eng, ta[1], args[1]['t'], x)
            keep = name in ('insert', 'emplace', 'try_emplace') and ismap
            nv = ('minsert' if keep and has_of(v, k) != FALSE and s.lits.get(has_of(v, k)) is not False else 'mset', v, k, x)
            b = NOT(has_of(v, k))
            mutate(eng, s, fr, e, 'set' if not keep else 'insert', loc, (k, x), nv)
            return [(s, V(('rec', 'pair', (('first', ('find', nv, k, loc)), ('second', b)))))]
        return recv_args(f)
    if name == 'erase':
        def f(s, loc, v, vs):
            k = vs[0]
            if k[0] == 'find':
                k = k[2]
            if k[0] == 'iter_any':
                k = ('fld', ('elem', v, k[2]), 'first') if ismap else ('elem', v, k[2])
            mutate(eng, s, fr, e, 'del', loc, (k,), ('mdel', v, k))
            n = sum(1 for x in s.events if x.kind == 'mut' and x.name == 'del')
            return [(s, V(('itadd', vs[0], 1) if vs[0][0] == 'iter_any' else ('ret', 'erase', n, (v, k))))]
        return recv_args(f)
    return None


def variant_of(eng, vt, at, v):
    if v[0] in ('variant',):
        return v
    a = _tclean(at)
    if a.startswith('std::variant'):
        return v
    alts = targs_of(vt)
    alts = [_tclean(x) for x in alts]
    if a in alts:
        return ('variant', a, v)
    for t in alts:
        if a in INT_T and t in INT_T or a in FLOAT_T and t in FLOAT_T:
            return ('variant', t, v)
    for t in alts:
        if 'basic_string' in t and ('char' in a or 'basic_string' in a):
            return ('variant', t, v)
    return ('variant', a, v)


def norm_t(t):
    t = _tclean(t)
    return t


def v_get(eng, s, loc, t):
    v = eng.read(s, loc)
    if v[0] == 'variant':
        if norm_t(v[1]) == norm_t(t):
            return eng.tmp(s, v[2])
    return ('fld', loc, '$get:' + norm_t(t))


def v_holds(v, t):
    if v[0] == 'variant':
        return TRUE if norm_t(v[1]) == norm_t(t) else FALSE
    if v[0] == 'rec' and v[1] not in ('pair',):
        return TRUE if v[1] == norm_t(t) else FALSE
    if v[0] == 'ite':
        return ITE(v[1], v_holds(v[2], t), v_holds(v[3], t))
    return ('holds', v, norm_t(t))


def free(eng, e, st, fr, q, name):
    bnd = eng.bind
    args = e['args']
    where = lambda: eng.where(fr, e)

    def vals(f):
        return bnd(eng.evs(args, st, fr), f)

    if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::addressof', 'std::forward_as_tuple') and len(args) == 1:
        return bnd(eng.lv(args[0], st, fr), lambda s, l: [(s, L(l))])
    if q in ('strlen', 'std::strlen') and len(args) == 1:
        return vals(lambda s, vs: [(s, V(I(len(vs[0][1].encode())) if vs[0][0] == 'str' else ('call', 'strlen', vs[0])))])
    if q in ('std::stol', 'std::stoul'):
        q = {'std::stol': 'std::stoll', 'std::stoul': 'std::stoull'}[q]     # long is as wide as long long here
    if q in ('std::stoi', 'std::stol', 'std::stoll', 'std::stoul', 'std::stoull', 'std::stod', 'std::stof') and eng.mr is not None and eng.trys:
        # throws when there is no number, or one that does not fit
        def conv(s, vs):
            out = []
            for s2, b in eng.branch(('typed', 'bool', ('call', q + '?number', vs[0])), s):
                if not b:
                    s2.out = ('throw', 'std::invalid_argument', None, where())
                    out.append((s2, None))
                    continue
                for s3, b2 in eng.branch(('typed', 'bool', ('call', q + '?fits', vs[0])), s2):
                    if not b2:
                        s3.out = ('throw', 'std::out_of_range', None, where())
                    out.append((s3, V(('call', q) + tuple(vs)) if b2 else None))
            return out
        return vals(conv)
    if name in ('max', 'min') and not args:
        t = _tclean(e['t'])
        if t in INT_T:
            w, sg = INT_T[t]
            if sg:
                v = (1 << (w - 1)) - 1 if name == 'max' else -(1 << (w - 1))
            else:
                v = (1 << w) - 1 if name == 'max' else 0
            return [(st, V(I(v)))]
        return [(st, V(('call', q)))]
    if q in ('std::max', 'std::min') and len(args) == 2:
        sg = sign_of(_tclean(args[0]['t']))
        return vals(lambda s, vs: [(s, V(ITE(lt(vs[0], vs[1], sg), vs[1], vs[0]) if name == 'max' else ITE(lt(vs[1], vs[0], sg), vs[1], vs[0])))])
    if q.startswith('fmt::') and name in ('format', 'print', 'vformat', 'println', 'format_to'):
        def f(s, vs):
            vs = list(vs)
            pre = None
            if args and (args[0]['t'].endswith('FILE *') or 'text_style' in args[0]['t'] or 'FILE' in args[0]['t'] or 'ostream' in args[0]['t']):
                pre = vs.pop(0)
                if vs and args[1] and 'text_style' in args[1]['t']:
                    vs.pop(0)
            t = fmt_cat(vs[0], vs[1:], [x['t'] if x else '' for x in args[len(args) - len(vs) + 1:]])
            if name == 'format':
                return [(s, V(t))]
            if name == 'println':
                t = cat(t, ('str', '\n'))
            s.events.append(Event('out', 'print', pre or ('stdout',), (t,), where(), len(s.lits)))
            return [(s, V(('void',)))]
        return vals(f)
    if q == 'std::to_string':
        if _tclean(args[0]['t']) in FLOAT_T:
            return vals(lambda s, vs: [(s, V(('fmtspec', 'f', vs[0])))])
        return vals(lambda s, vs: [(s, V(tostr(vs[0])))])
    if q in ('std::operator+',) and len(args) == 2:
        def f(s, vs):
            ps = []
            for a, v in zip(args, vs):
                if _tclean(a['t']) == 'char':
                    v = ('str', chr(v[1])) if v[0] == 'int' else ('chr', v)
                ps.append(v)
            return [(s, V(cat(*ps)))]
        return vals(f)
    if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        def f(s, vs):
            a, b = vs
            for i, x in enumerate((a, b)):
                o = args[1 - i]['t']
            t = opt_cmp(eng, name[8:], args[0]['t'], args[1]['t'], a, b)
            if t is not None:
                return [(s, V(t))]
            return [(s, V(eng.cmp(name[8:], a, b, 's')))]
        return vals(f)
    if name == 'operator<<' and args and ('stream' in args[0]['t']):
        return bnd(eng.lv(args[0], st, fr), lambda s, loc: bnd(eng.ev(args[1], s, fr), lambda s2, v: stream_out(eng, s2, fr, e, loc, chr_wrap(v, args[1]), args[1]['t'])))
    if name == 'operator>>' and args and 'stream' in args[0]['t']:
        return bnd(eng.lv(args[0], st, fr), lambda s, loc: bnd(eng.lv(args[1], s, fr), lambda s2, l: stream_in(eng, s2, fr, e, loc, l)))
    if q == 'std::from_chars' and len(args) >= 3:
        def f(s, vs):
            a = ('call', 'from_chars', vs[0], vs[1]) + tuple(vs[3:]) + (('str', _tclean(args[2]['t'])),)
            eng.write(s, vs[2], ('call', 'from_chars_value') + a[2:], where())
            return [(s, V(a))]
        return bnd(eng.evs(args, st, fr, [False, False, True] + [False] * (len(args) - 3)), f)
    if q == 'std::getline':
        def f(s, locs):
            n = sum(1 for x in s.events if x.kind == 'call' and x.name == 'std::getline')
            s.events.append(Event('call', 'std::getline', locs[0], (), where(), len(s.lits)))
            eng.write(s, locs[1], ('ret', 'std::getline', n, (eng.read(s, locs[0]),)), where())
            return [(s, L(locs[0]))]
        return bnd(eng.evs(args[:2], st, fr, [True, True]), f)
    if q == 'std::make_unique' or q == 'std::make_shared':
        cls = (e.get('targs') or ['?'])[0]
        cls = eng.type_cls(cls)
        return make_obj(eng, e, st, fr, cls)
    if q in ('std::make_pair', 'std::pair::pair'):
        return vals(lambda s, vs: [(s, V(('rec', 'pair', (('first', vs[0]), ('second', vs[1])))))])
    if q in ('std::make_optional',):
        return vals(lambda s, vs: [(s, V(('some', vs[0])))])
    if q in ('std::tie', 'std::make_tuple'):
        return vals(lambda s, vs: [(s, V(('tuple',) + tuple(vs)))])
    if q == 'std::holds_alternative':
        t = e['targs'][0]
        return vals(lambda s, vs: [(s, V(v_holds(vs[0], t)))])
    if q == 'std::get':
        t = e['targs'][0]
        ar = args[0]
        if re.match(r'^\d+', t):
            i = int(re.match(r'^\d+', t).group())
            if 'variant<' in ar['t'].split('(')[0] and _tclean(ar['t']).startswith('std::variant'):
                tt = targs_of(ar['t'])[i]
                return bnd(eng.lv(ar, st, fr), lambda s, loc: [(s, L(v_get(eng, s, loc, tt)))])

            def f(s, loc):
                if 'pair<' in ar['t']:
                    return [(s, L(('fld', loc, 'first' if i == 0 else 'second')))]
                return [(s, L(('fld', loc, 'get%d' % i)))]
            return bnd(eng.lv(ar, st, fr), f)
        return bnd(eng.lv(ar, st, fr), lambda s, loc: [(s, L(v_get(eng, s, loc, t)))])
    if q == 'std::get_if':
        t = e['targs'][0]

        def f(s, p):
            loc = eng.deref(p)
            v = eng.read(s, loc)
            return [(s2, V(('addr', v_get(eng, s2, loc, t)) if b else NULL)) for s2, b in eng.branch(v_holds(v, t), s)]
        return bnd(eng.ev(args[0], st, fr), f)
    if q == 'std::visit':
        return visit(eng, e, st, fr)
    if q == 'std::swap':
        def f(s, ls):
            a, b = ls
            va, vb = eng.read(s, a), eng.read(s, b)
            eng.write(s, a, vb, where())
            eng.write(s, b, va, where())
            return [(s, V(('void',)))]
        return bnd(eng.evs(args, st, fr, [True, True]), f)
    if q == 'std::exchange':
        def f(s, l):
            def g(s2, v):
                o = eng.read(s2, l)
                eng.write(s2, l, v, where())
                return [(s2, V(o))]
            return bnd(eng.ev(args[1], s, fr), g)
        return bnd(eng.lv(args[0], st, fr), f)
    if q in ('std::next', 'std::prev'):
        return vals(lambda s, vs: [(s, V(itadd(vs[0], vs[1] if len(vs) > 1 else I(1), name == 'prev')))])
    if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend'):
        return bnd(eng.lv(args[0], st, fr), lambda s, loc: [(s, V((name.lstrip('c') if name[0] == 'c' else name, eng.read(s, loc), loc)))])
    if q in ('std::size', 'std::ssize'):
        return vals(lambda s, vs: [(s, V(size_of(vs[0])))])
    if q == 'std::isinf':
        return vals(lambda s, vs: [(s, V(('isinf', vs[0])))])
    if q == 'std::rethrow_exception':
        def f(s, vs):
            s.out = ('throw', '$deferred', vs[0], where())
            return [(s, None)]
        return vals(f)
    if name in ('__builtin_add_overflow', '__builtin_sub_overflow', '__builtin_mul_overflow'):
        o = {'add': '+', 'sub': '-', 'mul': '*'}[name.split('_')[3]]
        sg = sign_of(_tclean(args[0]['t']))

        def f(s, vs):
            eng.write(s, eng.deref(vs[2]), op(o, vs[0], vs[1], sg), where())
            return [(s, V(('ovf', o, sg, vs[0], vs[1])))]
        return vals(f)
    if name in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isprint', 'ispunct'):
        return vals(lambda s, vs: [(s, V(('typed', 'bool', ('call', name, vs[0]))))])
    if q in ('std::equal', 'std::ranges::equal', 'strcmp', 'std::strcmp'):
        return vals(lambda s, vs: [(s, V(('call', q) + tuple(vs)))])
    r = algorithm(eng, e, st, fr, q, name)
    if r is not None:
        return r
    if not q.startswith(('std::', 'fmt::')) and name in EFFECT_FREE_EXT:
        return vals(lambda s, vs: [(s, V(('call', name) + tuple(vs)))])
    if not q.startswith(('std::', 'fmt::', '__gnu_cxx::')):
        # system call / C library: an effect
        def f(s, vs):
            return eng.opaque_call(s, fr, e, q, None, vs)
        return vals(f)
    eng.unmodelled[q] = eng.unmodelled.get(q, 0) + 1
    return vals(lambda s, vs: [(s, V(('call', q) + tuple(vs)))])


EFFECT_FREE_EXT = {'atoi', 'strlen', 'strerror', 'htons', 'htonl', 'ntohl', 'ntohs', '__errno_location', 'getenv', 'abs', 'fabs', 'log2', 'memcmp'}


def chr_wrap(v, node):
    if _tclean(node['t']) == 'char':
        return ('str', chr(v[1])) if v[0] == 'int' else ('chr', v)
    return v


def make_obj(eng, e, st, fr, cls):
    P = eng.P
    args = e['args']
    if cls in P.classes:
        c = P.classes[cls]
        cands = [m for m in c['methods'] if m.get('kind') == 'ctor' and len(m['pt']) >= len(args)]
        ats = [_tclean(a['t']) for a in args]

        def score(m):
            return sum(1 for p, a in zip(m['pt'], ats) if _tclean(p) == a)
        # default arguments make longer constructors viable; prefer exact arity, then best type match
        cands.sort(key=lambda m: (len(m['pt']) != len(args), -score(m)))
        if cands and cands[0].get('fn') in P.funcs and not cands[0].get('defaulted'):
            f = P.funcs[cands[0]['fn']]
            if len(f['params']) == len(args) and not eng.is_opaque(f['q'], e):
                byref = [p.get('ref') for p in f['params']]

                def go(s, vs):
                    locs = [v if r else None for v, r in zip(vs, byref)]
                    vv = [eng.read(s, v) if r else v for v, r in zip(vs, byref)]
                    loc = eng.tmp(s, ('rec', cls, ()))
                    return eng.bind(eng.run_ctor(f, cls, loc, vv, locs, s, fr, e), lambda s2, v: [(s2, V(('addr', eng.tmp(s2, v, 'heap'))))])
                return eng.bind(eng.evs(args, st, fr, byref), go)
        if not args:
            return eng.bind(eng.default_rec(cls, st, fr), lambda s, v: [(s, V(('addr', eng.tmp(s, v, 'heap'))))])
        if len(args) == 1 and _tclean(args[0]['t']) == cls:
            return eng.bind(eng.ev(args[0], st, fr), lambda s, v: [(s, V(('addr', eng.tmp(s, v, 'heap'))))])

    def mk(s, vs):
        q = cls + '::' + cls.split('::')[-1]
        if match(q, eng.opaque):
            s.events.append(Event('call', q, None, tuple(vs), eng.where(fr, e), len(s.lits)))
        return [(s, V(('addr', eng.tmp(s, ('new', cls) + tuple(vs), 'heap'))))]
    return eng.bind(eng.evs(args, st, fr), mk)


def visit(eng, e, st, fr):
    args = e['args']
    vt = args[1]['t']
    alts = targs_of(vt)
    if not alts:
        # a class deriving from variant or alias: cannot enumerate
        return [(st, V(('unk', 'visit', e.get('line'))))]
    two = len(args) > 2

    def lambdas(v):
        if v[0] == 'lambda':
            return [v]
        if v[0] == 'rec':
            return [x for k, x in v[2] if x[0] == 'lambda']
        if v[0] == 'vec':
            return [x for x in v[1] if x[0] == 'lambda']
        return []

    def pick(ls, ts):
        best = None
        for lam in ls:
            node = eng.lams[lam[1]][0]
            for b in node['bodies']:
                pts = [_tclean(p['t']) for p in b['params']]
                if pts == ts:
                    return lam, b
                if len(pts) == len(ts) and all(p == t or eng.P.derives(eng.type_cls(t), eng.type_cls(p)) and eng.type_cls(p) in eng.P.classes or (p in INT_T and t in INT_T) or (p in FLOAT_T and t in FLOAT_T) for p, t in zip(pts, ts)):
                    best = best or (lam, b)
        return best

    def go(s, vals):
        vis, *locs = vals
        ls = lambdas(vis)
        combos = [[]]
        for i, a in enumerate(args[1:]):
            combos = [c + [_tclean(t)] for c in combos for t in targs_of(a['t'])]
        out = []
        for ts in combos:
            cur = [s.copy()]
            for t, loc in zip(ts, locs):
                nxt = []
                for c in cur:
                    for c2, b in eng.branch(v_holds(eng.read(c, loc), t), c):
                        if b:
                            nxt.append(c2)
                cur = nxt
            for c in cur:
                plocs = [v_get(eng, c, loc, t) for t, loc in zip(ts, locs)]
                pk = pick(ls, ts)
                if pk is None:
                    if vis[0] == 'rec' and vis[1] in eng.P.classes:
                        ops = [f for f in eng.P.by_q.get(vis[1] + '::operator()', []) if [_tclean(p['t']) for p in f['params']] == ts]
                        if ops:
                            r = eng.enter(ops[0], [eng.read(c, l) for l in plocs], plocs, c, fr, ('addr', eng.tmp(c, vis)), e)
                            out += r
                            continue
                    out.append((c, V(('unk', 'visit', e.get('line')))))
                    continue
                lam, body = pk
                d = fr.depth + 1
                this = None
                for cp in lam[2]:
                    if cp[0] == 'this':
                        this = cp[1]
                    elif cp[1] == 'ref':
                        c.alias[('var', cp[0], d)] = cp[2]
                    else:
                        c.alias.pop(('var', cp[0], d), None)
                        c.store[('var', cp[0], d)] = cp[2]
                out += eng.enter(body, [eng.read(c, l) for l in plocs], plocs, c, fr, this, e, fnq=eng.lams[lam[1]][1])
        return out
    return eng.bind(eng.ev(args[0], st, fr), lambda s, vis: eng.bind(eng.evs(args[1:], s, fr, [True] * (len(args) - 1)), lambda s2, ls: go(s2, (vis,) + ls)))


def range_loc(eng, s, b, en):
    """where the elements of [b, en) are: the container itself, or a view of it without its first elements"""
    if b[0] == 'itadd' and b[1][0] == 'begin' and as_int(b[2] if isinstance(b[2], tuple) else I(b[2])) is not None and en[0] == 'end' and eng.loopx:
        c = cont_of_iter(b[1])
        k = b[2] if isinstance(b[2], tuple) else I(b[2])
        if c is not None and k[0] == 'int' and k[1] > 0:
            return eng.tmp(s, ('call', 'drop', eng.read(s, c), k))
    return cont_of_iter(b)


def algorithm(eng, e, st, fr, q, name):
    args = e['args']
    if q.startswith('std::ranges::'):
        pass
    if name in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count_if', 'for_each') and len(args) == 3:
        def f(s, vs):
            b, en, pred = vs
            cont = cont_of_iter(b)
            lid = 'A%d' % fr.depth
            if cont is None:
                return [(s, V(('call', q) + tuple(vs)))]
            eloc = ('elem', cont, lid)
            if name == 'for_each':
                pre = s

                def body(c):
                    out = []
                    for c2, r in eng.apply(pred, [eng.read(c, eloc)], [eloc], c, fr, e):
                        out.append(c2)
                    return out
                return [(x, V(('void',))) for x in eng.summarise(s, fr, eng.loop_id(s, fr), lambda c: [(c, True)], body, lambda c: [c], e, dom=eng.read(s, cont))]
            probe = s.copy()
            rs = eng.apply(pred, [eng.read(probe, eloc)], [eloc], probe, fr, e)
            pure = len(rs) == 1 and rs[0][0].out is None and len(rs[0][0].events) == len(s.events) and len(rs[0][0].lits) == len(s.lits)
            if pure:
                r = rs[0][1]
                p = eng.tobool(eng.read(rs[0][0], r[1]) if r[0] == 'L' else r[1])
                if name == 'find_if_not':
                    p = NOT(p)
                v = eng.read(s, cont)
                if name in ('find_if', 'find_if_not'):
                    a = ('any', v, p)
                    out = []
                    if eng.loopx:
                        return [(s2, V(('iter_any', cont, ('W', p)) if bb else ('end', v, cont))) for s2, bb in eng.branch(a, s)]
                    for s2, bb in eng.branch(a, s):
                        if bb:
                            for s3, b3 in eng.branch(p, s2):
                                if b3:
                                    out.append((s3, V(('iter_any', cont, lid))))
                        else:
                            out.append((s2, V(('end', v, cont))))
                    return out
                if name == 'any_of':
                    return [(s, V(('any', v, p)))]
                if name == 'none_of':
                    return [(s, V(NOT(('any', v, p))))]
                if name == 'all_of':
                    return [(s, V(NOT(('any', v, NOT(p)))))]
                return [(s, V(('count', v, p)))]
            # predicate with several outcomes: found / not found
            out = []
            if name in ('find_if', 'find_if_not') and not eng.loopx:
                for s2, r in rs:
                    if s2.out is not None:
                        out.append((s2, None))
                        continue
                    p = eng.tobool(eng.read(s2, r[1]) if r[0] == 'L' else r[1])
                    for s3, b3 in eng.branch(p if name == 'find_if' else NOT(p), s2):
                        if b3:
                            out.append((s3, V(('iter_any', cont, lid))))
                out.append((s, V(('end', eng.read(s, cont), cont))))
                return out
            disj = FALSE
            for s2, r in rs:
                if s2.out is not None:
                    continue
                p = eng.tobool(eng.read(s2, r[1]) if r[0] == 'L' else r[1])
                if name == 'find_if_not':
                    p = NOT(p)
                c = p
                for a, v in list(s2.lits.items())[len(s.lits):]:
                    c = AND(a if v else NOT(a), c)
                disj = OR(disj, c)
            v = eng.read(s, cont)
            if name in ('find_if', 'find_if_not'):
                return [(s2, V(('iter_any', cont, ('W', disj)) if bb else ('end', v, cont))) for s2, bb in eng.branch(('any', v, disj), s)]
            if name == 'any_of':
                return [(s, V(('any', v, disj)))]
            if name == 'none_of':
                return [(s, V(NOT(('any', v, disj))))]
            if name == 'all_of':
                return [(s, V(NOT(('any', v, NOT(disj)))))]
            return [(s, V(('count', v, disj)))]
        return eng.bind(eng.evs(args, st, fr), f)
    if name == 'find' and len(args) == 3:
        def f(s, vs):
            cont = cont_of_iter(vs[0])
            if cont is None:
                return [(s, V(('call', q) + tuple(vs)))]
            return [(s, V(('find', eng.read(s, cont), vs[2], cont)))]
        return eng.bind(eng.evs(args, st, fr), f)
    if name == 'count' and len(args) == 3:
        return eng.bind(eng.evs(args, st, fr), lambda s, vs: [(s, V(('count', vs[0][1] if len(vs[0]) > 1 else vs[0], vs[2])))])
    if name == 'transform' and len(args) == 4:
        def f(s, vs):
            b, en, out, fn = vs
            cont = range_loc(eng, s, b, en)
            if cont is None or out[0] != 'back_ins':
                return [(s, V(('call', q) + tuple(vs)))]
            lid = 'A%d' % fr.depth
            eloc = ('elem', cont, lid)
            res = []
            src = eng.read(s, cont)
            if src[0] == 'vec':
                cur = [s]
                for i, it in enumerate(src[1]):
                    nxt = []
                    for c in cur:
                        for c2, r in eng.apply(fn, [it], [('idx', cont, I(i))], c, fr, e):
                            if c2.out is None:
                                v = eng.read(c2, r[1]) if r[0] == 'L' else r[1]
                                o = eng.read(c2, out[1])
                                mutate(eng, c2, fr, e, 'push_back', out[1], (v,), ('vec', o[1] + (v,)) if o[0] == 'vec' else ('push', o, v))
                            nxt.append(c2)
                    cur = nxt
                return [(c, V(('void',)) if c.out is None else None) for c in cur]
            rs = eng.apply(fn, [eng.read(s, eloc)], [eloc], s.copy(), fr, e)
            if eng.loopx and (len(rs) != 1 or rs[0][0].out is not None or len(rs[0][0].events) != len(s.events) or len(rs[0][0].lits) != len(s.lits)):
                lid = eng.loop_id(s, fr)
                eloc = ('elem', cont, lid)

                def body(c):
                    o2 = []
                    for c2, r in eng.apply(fn, [eng.read(c, eloc)], [eloc], c, fr, e):
                        if c2.out is None:
                            v = eng.read(c2, r[1]) if r[0] == 'L' else r[1]
                            mutate(eng, c2, fr, e, 'push_back', out[1], (v,), ('push', eng.read(c2, out[1]), v))
                        o2.append(c2)
                    return o2
                return [(x, V(('void',)) if x.out is None else None) for x in
                        eng.summarise(s, fr, lid, lambda c: [(c, True)], body, lambda c: [c], e, dom=eng.read(s, cont))]
            for c, r in rs:
                if c.out is not None:
                    res.append((c, None))
                    continue
                v = eng.read(c, r[1]) if r[0] == 'L' else r[1]
                mutate(eng, c, fr, e, 'append_map', out[1], (eng.read(c, cont), v), ('mapped', eng.read(c, out[1]), eng.read(c, cont), v))
                res.append((c, V(('void',))))
            return res
        return eng.bind(eng.evs(args, st, fr), f)
    if q == 'std::back_inserter':
        return eng.bind(eng.lv(args[0], st, fr), lambda s, l: [(s, V(('back_ins', l)))])
    if q == 'std::inserter':
        return eng.bind(eng.lv(args[0], st, fr), lambda s, l: [(s, V(('back_ins', l)))])
    if name == 'fill' and len(args) == 3:
        def f(s, vs):
            cont = cont_of_iter(vs[0])
            if cont is None:
                return [(s, V(('void',)))]
            mutate(eng, s, fr, e, 'fill', cont, (vs[2],), ('filled', eng.read(s, cont), vs[2]))
            return [(s, V(('void',)))]
        return eng.bind(eng.evs(args, st, fr), f)
    if name in ('sort', 'stable_sort', 'reverse', 'remove', 'remove_if', 'copy', 'copy_if', 'iota', 'rotate'):
        def f(s, vs):
            cont = cont_of_iter(vs[0])
            if cont is not None and name not in ('copy', 'copy_if'):
                mutate(eng, s, fr, e, name, cont, vs[2:], (name, eng.read(s, cont)) + tuple(vs[2:]))
            elif name in ('copy', 'copy_if') and vs[2][0] == 'back_ins':
                mutate(eng, s, fr, e, 'append', vs[2][1], (eng.read(s, cont) if cont else vs[0],), ('mapped', eng.read(s, vs[2][1]), eng.read(s, cont) if cont else vs[0], eng.read(s, ('elem', cont, 'A%d' % fr.depth)) if cont else ('elem',)))
            return [(s, V(('ret', name, 0, tuple(vs))))]
        return eng.bind(eng.evs(args, st, fr), f)
    if name == 'accumulate' and len(args) in (3, 4) and eng.loopx:
        def f(s, vs):
            cont = cont_of_iter(vs[0])
            if cont is None or vs[0][0] != 'begin' or vs[1][0] != 'end':
                return [(s, V(('call', q) + tuple(vs)))]
            acc = ('var', '$acc', fr.depth)
            s.alias.pop(acc, None)
            eng.write(s, acc, vs[2], None, False)
            lid = eng.loop_id(s, fr)
            eloc = ('elem', cont, lid)

            def body(c):
                out = []
                if len(vs) == 3:
                    v = eng.read(c, eloc)
                    a = eng.read(c, acc)
                    eng.write(c, acc, cat(a, v) if 'basic_string' in args[2]['t'] else add(a, v), None, False)
                    return [c]
                for c2, r in eng.apply(vs[3], [eng.read(c, acc), eng.read(c, eloc)], [acc, eloc], c, fr, e, argtypes=[args[2]['t'], None]):
                    if c2.out is None:
                        eng.write(c2, acc, eng.read(c2, r[1]) if r[0] == 'L' else r[1], None, False)
                    out.append(c2)
                return out
            return [(x, V(eng.read(x, acc)) if x.out is None else None) for x in
                    eng.summarise(s, fr, lid, lambda c: [(c, True)], body, lambda c: [c], e, dom=eng.read(s, cont))]
        return eng.bind(eng.evs(args, st, fr), f)
    if name in ('max_element', 'min_element') and eng.loopx and len(args) in (2, 3):
        def f(s, vs):
            cont = cont_of_iter(vs[0])
            if cont is None or vs[0][0] != 'begin' or vs[1][0] != 'end':
                return [(s, V(('call', q) + tuple(vs)))]
            v = eng.read(s, cont)
            return [(s2, V(('end', v, cont) if bb else (name, v, cont) + tuple(vs[2:]))) for s2, bb in eng.branch(empty_of(v), s)]
        return eng.bind(eng.evs(args, st, fr), f)
    if name == 'accumulate':
        return eng.bind(eng.evs(args, st, fr), lambda s, vs: [(s, V(('call', q) + tuple(vs)))])
    return None


def std_ctor(eng, e, st, fr):
    cls = e.get('cls') or ''
    args = [a for a in e['args'] if a is not None and 'std::allocator' not in a['t'].split('<')[0]]
    bnd = eng.bind
    if e.get('cm') and args:
        return eng.ev(args[0], st, fr)
    if not args:
        if e['t'].startswith('std::') and cls.startswith('std::') and cls.split('::')[1] in ('plus', 'minus', 'multiplies', 'divides', 'modulus', 'equal_to', 'not_equal_to', 'less', 'less_equal',
                                     'greater', 'greater_equal', 'logical_and', 'logical_or', 'logical_not', 'bit_and', 'bit_or', 'bit_xor', 'bit_not', 'negate'):
            return [(st, ('stdop', cls))]
        return [(st, eng.std_default(cls, e['t']))]
    if cls in STRS or cls in ('fmt::basic_format_string', 'fmt::basic_string_view', 'fmt::runtime_format_string', 'std::__format::_Runtime_format_string', 'fmt::fstring'):
        if len(args) == 1:
            return eng.ev(args[0], st, fr)
        return bnd(eng.evs(args, st, fr), lambda s, vs: [(s, ('call', 'string', *vs))])
    if cls == 'std::optional':
        a = args[0]
        if 'nullopt_t' in a['t']:
            return [(st, ('none',))]
        if is_opt(a['t']):
            return eng.ev(a, st, fr)
        if 'in_place' in a['t']:
            return bnd(eng.evs(args[1:], st, fr), lambda s, vs: [(s, ('some', vs[0] if len(vs) == 1 else ('new', '?') + vs))])
        return bnd(eng.ev(a, st, fr), lambda s, v: [(s, ('some', v))])
    if cls in PTR or cls in ('std::function', 'std::reference_wrapper', 'std::initializer_list'):
        return eng.ev(args[0], st, fr)
    if cls == 'std::variant':
        a = args[0]
        return bnd(eng.ev(a, st, fr), lambda s, v: [(s, variant_of(eng, e['t'], a['t'], v))])
    if cls in SEQ:
        if len(args) == 1:
            if 'initializer_list' in args[0]['t']:
                return eng.ev(args[0], st, fr)
            t = _tclean(args[0]['t'])
            if t in INT_T:
                return bnd(eng.ev(args[0], st, fr), lambda s, v: [(s, ('fillvec', v, I(0)))])
            return eng.ev(args[0], st, fr)
        t = _tclean(args[0]['t'])
        if t in INT_T:
            return bnd(eng.evs(args[:2], st, fr), lambda s, vs: [(s, ('fillvec', vs[0], vs[1]))])
        def rng(s, vs):
            if len(vs) == 2 and vs[0][0] == 'begin' and vs[1][0] == 'end':
                loc = range_loc(eng, s, vs[0], vs[1])
                if loc is not None:
                    return [(s, ('mapped', ('vec', ()), eng.read(s, loc), eng.read(s, ('elem', loc, 'A%d' % fr.depth))))]
            return [(s, ('call', 'range') + vs)]
        return bnd(eng.evs(args, st, fr), rng)
    if cls in MAP or cls in SET:
        if 'initializer_list' in args[0]['t']:
            return bnd(eng.ev(args[0], st, fr), lambda s, v: [(s, lmap(v, cls in MAP))])
        return bnd(eng.evs(args, st, fr), lambda s, vs: [(s, vs[0])])
    if cls == 'std::pair' and len(args) == 2:
        return bnd(eng.evs(args, st, fr), lambda s, vs: [(s, ('rec', 'pair', (('first', vs[0]), ('second', vs[1]))))])
    if cls == 'std::tuple':
        return bnd(eng.evs(args, st, fr), lambda s, vs: [(s, ('tuple',) + vs)])
    if cls in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream'):
        return bnd(eng.ev(args[0], st, fr), lambda s, v: [(s, v)])
    if cls in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock'):
        return bnd(eng.evs(args, st, fr, [True] * len(args)), lambda s, ls: [(s, ('lockof', ls[0]))])
    if cls == 'std::thread' and len(args) >= 1:
        # the thread's body is summarised in place, between two markers
        def th(s, vs):
            s.events.append(Event('call', 'std::thread::start', None, (), eng.where(fr, e), len(s.lits)))
            if vs[0][0] not in ('lambda', 'fn'):
                return [(s, ('new', cls) + tuple(vs))]
            out = []
            for s2, r in eng.apply(vs[0], list(vs[1:]), [None] * (len(vs) - 1), s, fr, e):
                s2.events.append(Event('call', 'std::thread::finish', None, (), eng.where(fr, e), len(s2.lits)))
                out.append((s2, ('new', cls)))
            return out
        return bnd(eng.evs(args, st, fr), th)
    if ITER.search(cls):
        return eng.ev(args[0], st, fr)
    return bnd(eng.evs(args, st, fr), lambda s, vs: [(s, ('new', cls) + tuple(vs))])
