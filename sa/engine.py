"""Path-sensitive, interprocedural value-numbering dataflow over the extracted program.

`Engine.run(fn)` yields the function's guarded effect summary: a list of Path objects, each with the branch
literals that select it, the ordered effects (calls of primitives, writes to non-local state, container
mutations), and its outcome (return value / exception / abort).  Repo functions are inlined unless the rule
declares them primitive, so moving code between helpers does not change a summary.  Loops are summarised
after havocking what they modify.  Nothing is executed and no solver is used."""
import re
from collections import namedtuple
from terms import *
from load import AnalysisError

Event = namedtuple('Event', 'kind name recv args where nlit')
# kind: call (opaque primitive) | write | mut (container mutation) | out (stream output) | loop | lock | unlock


class PathLimit(Exception):
    pass


class St:
    __slots__ = ('store', 'alias', 'lits', 'events', 'out', 'cnt', 'vers', 'nloop')

    def __init__(self):
        self.store, self.alias, self.lits, self.events, self.out, self.cnt = {}, {}, {}, [], None, 0
        self.vers, self.nloop = {}, 0

    def copy(self):
        s = St.__new__(St)
        s.store, s.alias, s.lits, s.events, s.out, s.cnt = dict(self.store), dict(self.alias), dict(self.lits), list(self.events), self.out, self.cnt
        s.vers, s.nloop = self.vers, self.nloop
        return s


class Path:
    def __init__(self, st):
        self.lits, self.events, self.out, self.store = st.lits, st.events, st.out, st.store
        self.vers = st.vers

    @property
    def kind(self):
        return self.out[0]

    @property
    def value(self):
        return self.out[1] if self.out[0] == 'return' else None

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and (not names or match(e.name, names))]

    def flat(self):
        """All events, loop bodies flattened (each loop iteration variant in sequence)."""
        return list(flatten(self.events))

    def lit(self, atom):
        return self.lits.get(atom)


def closed(t):
    return isinstance(t, tuple) and t[:1] and t[0] in ('vec', 'lmap', 'str', 'int', 'enum', 'bool', 'flt', 'rec') and \
        all(not isinstance(x, tuple) or not x or not isinstance(x[0], str) or x[0] not in ('unk', 'var', 'tmp', 'this') for x in subterms(t))


def relid_t(t, lid, new, memo):
    if not isinstance(t, tuple) or not t:
        return t
    r = memo.get(t)
    if r is None:
        if t[0] == 'elem' and len(t) == 3 and t[2] == lid:
            r = ('elem', relid_t(t[1], lid, new, memo), new)
        else:
            r = tuple(relid_t(x, lid, new, memo) if isinstance(x, tuple) else x for x in t)
            if isinstance(t, Event):
                r = Event(*r)
        memo[t] = r
    return r


def relid(st, l0, n0, lid, new, drop):
    """the element a search loop stopped at is the first one satisfying the search condition"""
    memo = {}
    f = lambda t: relid_t(t, lid, new, memo)
    items = list(st.lits.items())
    st.lits = dict(items[:l0] + ([] if drop else [(f(a), v) for a, v in items[l0:]]))
    st.store = {f(k): f(v) for k, v in st.store.items()}
    st.alias = {k: f(v) for k, v in st.alias.items()}
    st.events = st.events[:n0] + [f(x) for x in st.events[n0:]]
    if st.out is not None:
        st.out = tuple(f(x) if isinstance(x, tuple) else x for x in st.out)


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t if isinstance(y, tuple))


def dropped(t):
    """size(v) - k  ->  v without its first k elements"""
    if t[0] == 'poly' and len(t[1]) == 2:
        d = dict(t[1])
        k = d.pop((), None)
        if k is not None and k < 0 and list(d.values()) == [1]:
            f = list(d)[0]
            if len(f) == 1 and f[0][0] == 'size':
                return ('call', 'drop', f[0][1], I(-k))
    return None


def contains_havoc(t, lid):
    return isinstance(t, tuple) and (t[:2] == ('havoc', lid) or any(contains_havoc(y, lid) for y in t if isinstance(y, tuple)))


def erase(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'havoc':
        return ('havoc',)
    if t[0] == 'var' and len(t) == 3:
        return ('var',)
    return tuple(erase(x) for x in t)


def callnames(t, out):
    """the functions a value is computed with"""
    if t and t[0] in ('ret', 'call', 'new') and len(t) > 1 and isinstance(t[1], str):
        out.add(t[1])
    for x in t:
        if isinstance(x, tuple):
            callnames(x, out)


def flatten(evs):
    for e in evs:
        if e.kind == 'loop':
            for lits, body, out in e.args:
                yield from flatten(body)
        else:
            yield e


def match(q, names):
    for n in names:
        if q == n or q.endswith('::' + n):
            return True
    return False


class Frame:
    __slots__ = ('depth', 'this', 'fn', 'stack', 'dyncls')

    def __init__(self, depth, this, fn, stack, dyncls=None):
        self.depth, self.this, self.fn, self.stack, self.dyncls = depth, this, fn, stack, dyncls


STD_EXC = {'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error',
           'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::range_error': 'std::runtime_error',
           'std::overflow_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception', 'std::bad_optional_access': 'std::exception',
           'std::bad_variant_access': 'std::exception', 'std::system_error': 'std::runtime_error', 'fmt::format_error': 'std::runtime_error'}

LOGGERS = ('log_info', 'log_debug', 'log_error', 'log_warn', 'log_warning')


def _tclean(t):
    t = t.strip()
    if t.startswith('const '):
        t = t[6:]
    return t.rstrip('&').strip()


def int_type(t):
    return INT_T.get(_tclean(t))


def sign_of(t):
    t = _tclean(t)
    if t in FLOAT_T:
        return 'f'
    it = INT_T.get(t)
    if it:
        return 's' if it[1] else 'u'
    if t == 'bool':
        return 's'
    return 's'


def truth_under(lits, t):
    """truth value of a boolean term on a path, if the path decides it"""
    if t == TRUE or t == FALSE:
        return t == TRUE
    if t[0] == 'not':
        x = truth_under(lits, t[1])
        return None if x is None else not x
    return lits.get(t)


def same_under(lits, v, old):
    if v == old:
        return True
    if v is None or old is None:
        return False
    x = truth_under(lits, v)
    return x is not None and x == truth_under(lits, old)


class Engine:
    on_index = None         # called for every indexing with a constant

    def __init__(self, prog, opaque=(), pure=(), may_throw=None, max_paths=4000, max_depth=24, virt=None, inline_ctors=True,
                 unroll=70, noinline_pred=None, merge=True, keep_log=False):
        self.P = prog
        self.opaque, self.pure = tuple(opaque), tuple(pure)
        self.lossy_at = 400
        self.may_throw = may_throw or {}
        self.max_paths, self.max_depth = max_paths, max_depth
        self.virt = virt            # optional callback(node, recv value, dyncls) -> function or None
        self.lams = {}
        self.unroll = unroll
        self.noinline_pred = noinline_pred
        self.merge = merge
        self.keep_log = keep_log
        self.mr = None              # mod/ref information for modular summaries (sa/conform.py)
        self.loopx = False          # modular summaries: loop exits and per-iteration updates are explicit
        self.lnest = ()
        self.ambiguous = False
        self.elemw = set()          # loops that write the elements of a local container by reference
        self.hints = {}         # loop -> local -> the functions whose results it is made of
        self.trys = []
        self.budget = None          # statement evaluations allowed
        self.visited = set()
        self.unmodelled = {}
        self.gcache = {}

    # ---------------------------------------------------------------------------------------- store
    def proj(self, b, n):
        h = b[0]
        if h == 'rec':
            for k, v in b[2]:
                if k == n:
                    return v
            return ('fld', b, n)
        if h == 'ite':
            return ITE(b[1], self.proj(b[2], n), self.proj(b[3], n))
        if h == 'some' and n == '$val':
            return b[1]
        if h == 'addr' and n == '$deref':
            return b[1]
        return ('fld', b, n)

    def select(self, b, k):
        h = b[0]
        if h == 'vec' and k[0] == 'int':
            if 0 <= k[1] < len(b[1]):
                return b[1][k[1]]
            return ('oob', b, k)
        if h == 'lmap':
            r = ('at', b, k)
            for k2, v2 in reversed(b[1]):
                c = eq(k, k2)
                if c == TRUE:
                    return v2
                r = ITE(c, v2, r) if c != FALSE else r
            return r
        if h == 'mset':
            if b[2] == k:
                return b[3]
            if is_const(b[2]) and is_const(k) and eq(b[2], k) == FALSE:
                return self.select(b[1], k)
        if h == 'str' and k[0] == 'int' and 0 <= k[1] < len(b[1]):
            return I(ord(b[1][k[1]]))
        return ('at', b, k)

    def read(self, st, loc):
        v = st.store.get(loc)
        if v is not None:
            return v
        h = loc[0]
        if h == 'fld':
            b = self.read(st, loc[1])
            if st.vers and loc[2] in st.vers and b[0] != 'rec' and not (b[0] == 'ret' and self.by_value(b[1])):
                return ('ver', st.vers[loc[2]], ('fld', b, loc[2]))
            return self.proj(b, loc[2])
        if h == 'idx':
            return self.select(self.read(st, loc[1]), loc[2])
        if h == 'elem':
            return ('elem', self.read(st, loc[1]), loc[2])
        if h == 'const':
            return loc[1]
        if h == 'global':
            return self.global_const(loc[1]) or loc
        return loc

    def plain(self, cls):
        """the fields of a simple record class of the program, else None"""
        if not hasattr(self.P, '_plain'):
            self.P._plain = {}
        if cls not in self.P._plain:
            c = self.P.classes.get(cls)
            ok = c and c.get('fields') and len(c['fields']) <= 12 and not c.get('bases') and not any(m.get('overrides') or m.get('virtual') for m in c['methods'])
            self.P._plain[cls] = [(f['n'], _tclean(f['t'])) for f in c['fields']] if ok else None
        return self.P._plain[cls]

    def expand(self, st, v, cls, depth=0):
        """the value an object of a record class has now, detached from the object it is copied from"""
        fs = self.plain(cls) if self.loopx and v is not None and v[0] in ('fld', 'sym', 'ret', 'ver', 'elem', 'at', 'idx', 'var', 'tmp', 'heap', 'this', 'call', 'new') and depth < 4 else None
        if not fs:
            return v
        return ('rec', cls, tuple(sorted((n, self.expand(st, self.read(st, ('fld', v, n)), t, depth + 1)) for n, t in fs)))

    def rvalue(self, st, loc, t):
        v = self.read(st, loc)
        if self.loopx and v[0] not in ('rec', 'int', 'poly'):
            t = _tclean(t)
            if self.plain(t):
                return self.expand(st, loc, t)
        return v

    def by_value(self, q):
        """does this function return an object of a class of the program by value? (its fields are nobody else's)"""
        if not hasattr(self.P, '_byval'):
            self.P._byval = {}
        r = self.P._byval.get(q)
        if r is None:
            fs = [f for f in self.P.funcs.values() if f['q'] == q]
            r = self.P._byval[q] = bool(fs) and all(not f.get('retref') and _tclean(f.get('ret') or '') in self.P.classes for f in fs)
        return r

    def kill(self, st, fields, tag):
        """An opaque call changed these fields: forget what is known about them, later reads are of the new version."""
        for k in [k for k in st.store if not self.local(k) and self.fields_of(k) & fields]:
            del st.store[k]
        st.vers = dict(st.vers)
        for f in fields:
            st.vers[f] = tag

    @staticmethod
    def fields_of(loc):
        r = set()
        while loc[0] in ('fld', 'idx', 'elem'):
            if loc[0] == 'fld':
                r.add(loc[2])
            loc = loc[1]
        return r

    @staticmethod
    def is_prefix(a, b):
        while b[0] in ('fld', 'idx', 'elem'):
            b = b[1]
            if a == b:
                return True
        return False

    @staticmethod
    def root(loc):
        while loc[0] in ('fld', 'idx', 'elem'):
            loc = loc[1]
        return loc

    def local(self, loc):
        return self.root(loc)[0] in ('var', 'tmp', 'heap')

    def write(self, st, loc, v, where=None, emit=True):
        if len(st.store) > 0:
            dead = [k for k in st.store if k[0] in ('fld', 'idx', 'elem') and self.is_prefix(loc, k)]
            for k in dead:
                del st.store[k]
        h = loc[0]
        if h == 'fld':
            b = self.read(st, loc[1])
            if b[0] == 'ret' and self.local(loc[1]) and self.by_value(b[1]):
                f = next(f for f in self.P.funcs.values() if f['q'] == b[1])
                b = self.expand(st, b, _tclean(f.get('ret') or ''))
            if b[0] == 'rec':
                fs = dict(b[2])
                fs[loc[2]] = v
                self.write(st, loc[1], ('rec', b[1], tuple(sorted(fs.items()))), where, False)
            elif b[0] == 'some' and loc[2] == '$val':
                self.write(st, loc[1], ('some', v), where, False)
            else:
                st.store[loc] = v
        elif h == 'idx':
            b = self.read(st, loc[1])
            if b[0] == 'vec' and loc[2][0] == 'int' and 0 <= loc[2][1] < len(b[1]):
                items = list(b[1])
                items[loc[2][1]] = v
                self.write(st, loc[1], ('vec', tuple(items)), where, False)
            else:
                while b[0] == 'mset' and b[2] == loc[2]:
                    b = b[1]
                self.write(st, loc[1], ('mset', b, loc[2], v), where, False)
        else:
            st.store[loc] = v
        if emit and not self.local(loc):
            st.events.append(Event('write', self.lname(loc), loc, (v,), where, len(st.lits)))

    def lname(self, loc):
        while loc[0] in ('idx', 'elem') or (loc[0] == 'fld' and loc[2] in ('$val', '$deref')):
            loc = loc[1]
        if loc[0] == 'fld':
            return loc[2]
        return str(loc[1]) if len(loc) > 1 else loc[0]

    def tmp(self, st, v, kind='tmp'):
        st.cnt += 1
        loc = (kind, st.cnt)
        st.store[loc] = v
        return loc

    # ------------------------------------------------------------------------------------- literals
    def bounds(self, st, sign, x):
        lo = hi = None
        for a, v in st.lits.items():
            if a[0] == 'lt' and a[1] == sign:
                if a[2] == x:
                    c = cval(a[3])
                    if c is not None:
                        c = c % (1 << 64) if sign == 'u' else c
                        if v:
                            hi = c - 1 if hi is None else min(hi, c - 1)
                        else:
                            lo = c if lo is None else max(lo, c)
                elif a[3] == x:
                    c = cval(a[2])
                    if c is not None:
                        c = c % (1 << 64) if sign == 'u' else c
                        if v:
                            lo = c + 1 if lo is None else max(lo, c + 1)
                        else:
                            hi = c if hi is None else min(hi, c)
        if sign == 'u' and lo is None:
            lo = 0
        return lo, hi

    def known(self, st, a):
        v = st.lits.get(a)
        if v is not None:
            return v
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if is_const(x):
                    for b, bv in st.lits.items():
                        if b[0] == 'eq' and bv and y in (b[1], b[2]):
                            o = b[2] if b[1] == y else b[1]
                            if is_const(o):
                                return eq(o, x) == TRUE
                    c = cval(x)
                    if c is not None:
                        for sg in ('s', 'u'):
                            lo, hi = self.bounds(st, sg, y)
                            c = cval(x) % (1 << 64) if sg == 'u' else cval(x)
                            if (lo is not None and c < lo) or (hi is not None and c > hi):
                                return False
                            if lo is not None and lo == hi and lo == c and sg == 's':
                                return True
        elif a[0] == 'lt':
            for b, bv in st.lits.items():
                if b[0] == 'eq' and bv:
                    for i, x in ((2, a[2]), (3, a[3])):
                        if x in (b[1], b[2]):
                            o = b[2] if b[1] == x else b[1]
                            if cval(o) is not None:
                                r = lt(o, a[3], a[1]) if i == 2 else lt(a[2], o, a[1])
                                if r[0] == 'bool':
                                    return r[1]
            # a<b known => not b<a ; !(a<b) known with a!=b ... only the strict one
            r = st.lits.get(('lt', a[1], a[3], a[2]))
            if r is True:
                return False
            c2, c3 = cval(a[2]), cval(a[3])
            if a[1] == 'u':
                c2, c3 = (c % (1 << 64) if isinstance(c, int) else c for c in (c2, c3))
            if c3 is not None:
                lo, hi = self.bounds(st, a[1], a[2])
                if hi is not None and hi < c3:
                    return True
                if lo is not None and lo >= c3:
                    return False
            if c2 is not None:
                lo, hi = self.bounds(st, a[1], a[3])
                if lo is not None and lo > c2:
                    return True
                if hi is not None and hi <= c2:
                    return False
        elif a[0] == 'holds':
            for b, bv in st.lits.items():
                if b[0] == 'holds' and bv and b[1] == a[1] and b[2] != a[2]:
                    return False
        elif a[0] == 'isa':
            for b, bv in st.lits.items():
                if b[0] == 'isa' and bv and b[1] == a[1] and b[2] != a[2]:
                    if not (self.P.derives(b[2], a[2]) or self.P.derives(a[2], b[2])):
                        return False
        elif a[0] == 'empty':
            for b, bv in st.lits.items():
                if b[0] == 'has' and bv and b[1] == a[1]:
                    return False
                if b[0] == 'lt' and b[3] == ('size', a[1]) and cval(b[2]) is not None and bv and cval(b[2]) >= 0:
                    return False
                if b[0] == 'eq' and bv and ('size', a[1]) in b:
                    o = b[2] if b[1] == ('size', a[1]) else b[1]
                    if cval(o):
                        return False
        return None

    def branch(self, t, st):
        """Split st on boolean term t -> list of (st, bool)."""
        h = t[0]
        if h == 'bool':
            return [(st, t[1])]
        if h == 'int':
            return [(st, t[1] != 0)]
        if h == 'enum':
            return [(st, t[2] != 0)]
        if h == 'not':
            return [(s, not b) for s, b in self.branch(t[1], st)]
        if h == 'and':
            r = []
            for s, b in self.branch(t[1], st):
                r += self.branch(t[2], s) if b else [(s, False)]
            return r
        if h == 'or':
            r = []
            for s, b in self.branch(t[1], st):
                r += self.branch(t[2], s) if not b else [(s, True)]
            return r
        if h == 'ite':
            r = []
            for s, b in self.branch(t[1], st):
                r += self.branch(t[2] if b else t[3], s)
            return r
        if h == 'eq' and (is_boolean(t[1]) and is_boolean(t[2])):
            r = []
            for s, b in self.branch(t[1], st):
                r += [(s2, b2 == b) for s2, b2 in self.branch(t[2], s)]
            return r
        if h == 'eq':
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if x[0] == 'ite':
                    r = []
                    for s, b in self.branch(x[1], st):
                        r += self.branch(eq(x[2] if b else x[3], y), s)
                    return r
        k = self.known(st, t)
        if k is not None:
            return [(st, k)]
        a, b = st.copy(), st
        a.lits[t] = True
        b.lits[t] = False
        return [(a, True), (b, False)]

    # ---------------------------------------------------------------------------------- conversions
    def tobool(self, v, ty='bool'):
        if is_boolean(v):
            return v
        c = cval(v)
        if c is not None:
            return TRUE if c else FALSE
        if v[0] == 'null' or v[0] == 'none':
            return FALSE
        if v[0] == 'addr' or v[0] == 'some' or v[0] == 'lambda':
            return TRUE
        t = _tclean(ty)
        if t == 'bool':
            if v[0] == 'ite':
                return ITE(v[1], self.tobool(v[2]), self.tobool(v[3]))
            return v
        if t in FLOAT_T:
            return NOT(eq(v, ('flt', 0.0)))
        if t.endswith('*'):
            return NOT(eq(v, NULL))
        if INT_T.get(t):
            return NOT(eq(v, I(0)))
        return ('truth', v)

    def cast(self, v, node):
        ck, to, frm = node['ck'], _tclean(node['t']), _tclean(node['from'])
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return self.tobool(v, frm)
        if ck == 'NullToPointer':
            return NULL
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            ti, fi = INT_T.get(to), INT_T.get(frm)
            if to == 'bool':
                return self.tobool(v, frm)
            if v[0] in ('int', 'enum', 'bool') and ti:
                c = cval(v)
                if ti[0] < 128:
                    c %= 1 << ti[0]
                    # 64-bit values are kept as signed-or-literal patterns; keep natural reading per type
                    if ti[1] and c >= 1 << (ti[0] - 1):
                        c -= 1 << ti[0]
                return I(c)
            if frm == 'bool' or ti is None:
                return v
            if fi and ti[0] < fi[0]:
                return ('trunc', to, v)
            if fi and ti[0] > fi[0] and ti[0] == 128:
                return ('wide', fi[1] and 's' or 'u', v)
            return v
        if ck == 'IntegralToFloating':
            if v[0] in ('int', 'bool', 'enum'):
                return ('flt', float(cval(v)))
            s = 'u' if (INT_T.get(frm) or (64, True))[1] is False else ''
            return ('i2f' + s, v)
        if ck == 'FloatingToIntegral':
            ti = INT_T.get(to)
            return ('f2i', to if ti and ti[0] < 64 else ('u64' if ti and not ti[1] else 'i64'), v)
        if ck == 'FloatingCast':
            if to == 'double' and frm == 'float':
                return v
            return ('fcast', to, v) if to == 'float' else v
        return v

    # ---------------------------------------------------------------------------------- expressions
    def where(self, fr, node):
        return (fr.fn.get('file', '?'), node.get('line', 0) if node else 0, fr.fn['q'])

    def bind(self, results, f):
        out = []
        for st, v in results:
            if st.out is not None:
                out.append((st, None))
            else:
                out += f(st, v)
        if len(out) > self.max_paths:
            raise PathLimit()
        return out

    def evs(self, es, st, fr, byref=None):
        """Evaluate a list of expressions; values (or locs where byref[i])."""
        res = [(st, ())]
        for i, e in enumerate(es):
            lv = byref and byref[i]
            res = self.bind(res, lambda s, acc, e=e, lv=lv: self.bind((self.lv if lv else self.ev)(e, s, fr), lambda s2, v: [(s2, acc + (v,))]))
        return res

    def varloc(self, st, node, fr):
        if node.get('vk') in ('global',) or (node.get('vk') == 'static'):
            return ('global', node['id'])
        loc = ('var', node['id'], fr.depth)
        return st.alias.get(loc, loc)

    def global_const(self, q):
        if q in self.gcache:
            return self.gcache[q]
        g = self.P.globals.get(q)
        v = None
        if g and g.get('init') is not None and (g.get('const') or 'const' in g['t']):
            t = _tclean(g['t'])
            if int_type(t) or t == 'bool' or t in FLOAT_T or 'basic_string' in t or t in self.P.enums or t.endswith('char *') or re.match(r'std::(map|unordered_map|set|unordered_set|vector|array|initializer_list)\b', t):
                self.gcache[q] = None
                try:
                    r = self.ev(g['init'], St(), Frame(0, None, {'q': q, 'file': g['file']}, ()))
                    if len(r) == 1 and r[0][0].out is None:
                        v = r[0][1]
                except (PathLimit, RecursionError):
                    v = None
        self.gcache[q] = v
        return v

    def lv(self, e, st, fr):
        k = e['k']
        if k == 'var':
            loc = self.varloc(st, e, fr)
            return [(st, loc)]
        if k == 'fld':
            if e.get('arrow'):
                return self.bind(self.ev(e['b'], st, fr), lambda s, p: [(s, self.fldloc(self.deref(p), e['n']))])
            return self.bind(self.lv(e['b'], st, fr), lambda s, b: [(s, ('fld', b, e['n']))])
        if k == 'un' and e['op'] == '*':
            return self.bind(self.ev(e['e'], st, fr), lambda s, p: [(s, self.deref(p))])
        if k == 'index':
            def f(s, vs):
                b, i = vs
                if b[0] == 'addr':
                    return [(s, ('idx', b[1], i))]
                return [(s, ('idx', b, i))]
            bn = e['b']
            if bn['t'].rstrip('&').endswith(']'):
                return self.bind(self.lv(bn, st, fr), lambda s, b: self.bind(self.ev(e['i'], s, fr), lambda s2, i: [(s2, ('idx', b, i))]))
            return self.bind(self.evs([e['b'], e['i']], st, fr), f)
        if k == 'call':
            return self.bind(self.call(e, st, fr), lambda s, r: [(s, r[1])] if r[0] == 'L' else [(s, self.tmp(s, r[1]))])
        if k == 'cast' and e['ck'] in ('LValueBitCast', 'DerivedToBase', 'BaseToDerived', 'NoOp', 'Dynamic', 'UncheckedDerivedToBase'):
            if e['ck'] == 'Dynamic' and e['t'].endswith('*'):
                return self.bind(self.ev(e, st, fr), lambda s, v: [(s, self.tmp(s, v))])
            return self.lv(e['e'], st, fr)
        if k == 'assign' or (k == 'un' and e['op'] in ('++', '--') and not e.get('post')):
            lhs = e['l'] if k == 'assign' else e['e']
            return self.bind(self.ev(e, st, fr), lambda s, v: self.lv(lhs, s, fr))
        if k == 'cond':
            r = []
            for s, b in self.cond(e['c'], st, fr):
                r += [(s, None)] if s.out is not None else self.lv(e['a'] if b else e['b'], s, fr)
            return r
        if k == 'bin' and e['op'] == ',':
            return self.bind(self.ev(e['l'], st, fr), lambda s, _: self.lv(e['r'], s, fr))
        return self.bind(self.ev(e, st, fr), lambda s, v: [(s, self.tmp(s, v))])

    def fldloc(self, b, n):
        if b[0] == 'fview':     # iterator returned by map.find(k)
            it = b[1]
            if n == 'second':
                return ('idx', it[3], it[2])
            if n == 'first':
                return ('const', it[2])
        return ('fld', b, n)

    def deref(self, p):
        if p[0] == 'addr':
            return p[1]
        if p[0] in ('iter_any',):
            return ('elem', p[1], p[2])
        if p[0] == 'find':
            return ('fview', p)
        return ('fld', p, '$deref')

    def cond(self, e, st, fr):
        """Evaluate as condition -> list of (st, bool)."""
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            isand = e['op'] == '&&'
            r = []
            for s, b in self.cond(e['l'], st, fr):
                if s.out is not None:
                    r.append((s, False))
                elif b == isand:
                    r += self.cond(e['r'], s, fr)
                else:
                    r.append((s, b))
            return r
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], st, fr)]
        r = []
        for s, v in self.ev(e, st, fr):
            if s.out is not None:
                r.append((s, False))
            else:
                r += self.branch(self.tobool(v, e['t']), s)
        return r

    def pure_pair(self, e, st, fr):
        """Evaluate e from st if that has exactly one outcome and no effect; else None."""
        if self.on_index:
            return None         # conditions must stay on the path
        s = st.copy()
        try:
            r = self.ev(e, s, fr)
        except PathLimit:
            return None
        if len(r) == 1 and r[0][0].out is None and len(r[0][0].events) == len(st.events) and len(r[0][0].lits) == len(st.lits):
            s2 = r[0][0]
            for kk, vv in st.store.items():
                if s2.store.get(kk) != vv:
                    return None
            return r[0][1], s2
        return None

    def ev(self, e, st, fr):
        k = e['k']
        if k == 'int':
            return [(st, I(int(e['v'])))]
        if k == 'char':
            return [(st, I(int(e['v'])))]
        if k == 'bool':
            return [(st, TRUE if e['v'] else FALSE)]
        if k == 'float':
            return [(st, ('flt', float(e['v'])))]
        if k == 'str':
            return [(st, ('str', e['v']))]
        if k == 'null':
            return [(st, NULL)]
        if k == 'enum':
            return [(st, ('enum', e['q'], int(e['v'])))]
        if k == 'this':
            return [(st, fr.this if fr.this else ('addr', ('this',)))]
        if k == 'zero':
            t = _tclean(e['t'])
            return [(st, I(0) if int_type(t) else FALSE if t == 'bool' else ('flt', 0.0) if t in FLOAT_T else NULL if t.endswith('*') else ('dflt', t))]
        if k == 'var':
            if e.get('vk') in ('global', 'static'):
                v = self.global_const(e['id'])
                if v is not None:
                    return [(st, v)]
            return [(st, self.rvalue(st, self.varloc(st, e, fr), e.get('t', '')))]
        if k in ('fld', 'index'):
            return self.bind(self.lv(e, st, fr), lambda s, loc: [(s, self.rvalue(s, loc, e.get('t', '')))])
        if k == 'fnref':
            return [(st, ('fn', e['fn'], e['q']))]
        if k == 'un':
            return self.ev_un(e, st, fr)
        if k == 'bin':
            return self.ev_bin(e, st, fr)
        if k == 'assign':
            return self.ev_assign(e, st, fr)
        if k == 'cond':
            # join as a term when both arms are effect free
            c = self.pure_pair(e['c'], st, fr)
            if c is not None:
                cb = self.tobool(c[0], e['c']['t'])
                if cb[0] != 'bool':
                    kn = self.known(c[1], cb if cb[0] != 'not' else cb[1])
                    if kn is not None:
                        cb = TRUE if kn != (cb[0] == 'not') else FALSE
                if cb[0] == 'bool':
                    return self.ev(e['a'] if cb[1] else e['b'], c[1], fr)
                a = self.pure_pair(e['a'], c[1], fr) if e['a']['k'] != 'throw' else None
                b = self.pure_pair(e['b'], c[1], fr) if a and e['b']['k'] != 'throw' else None
                if a and b and a[0] is not None and b[0] is not None:
                    return [(b[1], ITE(cb, a[0], b[0]))]
            r = []
            for s, b in self.cond(e['c'], st, fr):
                if s.out is not None:
                    r.append((s, None))
                else:
                    r += self.ev(e['a'] if b else e['b'], s, fr)
            return r
        if k == 'cast':
            if e['ck'] == 'Dynamic':
                tgt = self.type_cls(e['t'])

                def f(s, v):
                    dyn = self.dyn_of(s, v)
                    if dyn:
                        return [(s, v if self.P.derives(dyn, tgt) else NULL)]
                    r = []
                    for s2, b in self.branch(('isa', v, tgt), s):
                        r.append((s2, v if b else NULL))
                    return r
                return self.bind(self.ev(e['e'], st, fr), f)
            if e['ck'] in ('ToVoid',):
                return self.bind(self.ev(e['e'], st, fr), lambda s, v: [(s, ('void',))])
            if e['ck'] == 'LValueBitCast' or e['ck'] == 'BitCast':
                return self.bind(self.ev(e['e'], st, fr), lambda s, v: [(s, v if e['t'].endswith('*') and (v[0] == 'addr' or _tclean(e['t']).replace('const ', '') == 'void *') else ('bitcast', _tclean(e['t']), v))])
            return self.bind(self.ev(e['e'], st, fr), lambda s, v: [(s, self.cast(v, e) if v is not None else None)])
        if k == 'call':
            return self.bind(self.call(e, st, fr), lambda s, r: [(s, self.rvalue(s, r[1], e.get('t', '')) if r[0] == 'L' else r[1])])
        if k == 'rewop':
            return self.ev_rewop(e, st, fr)
        if k == 'ctor':
            return self.ctor(e, st, fr)
        if k in ('init', 'initlist'):
            if k == 'initlist':
                return self.ev(e['e'], st, fr)
            args = [a for a in e['args'] if a is not None]

            def mk(s, vs):
                if e.get('fields') or e.get('cls'):
                    fs = {}
                    cls = e.get('cls') or _tclean(e['t'])
                    if len(args) == 1 and _tclean(args[0].get('t', '')) == _tclean(e['t']):
                        return [(s, vs[0])]         # T{t}: a copy of, or a reference to, t itself
                    for n, v in zip(e['fields'], vs):
                        if n == '<base>':
                            if v[0] == 'rec':
                                fs.update(dict(v[2]))
                            else:
                                fs['$base%d' % len(fs)] = v
                        else:
                            fs[n] = v
                    return [(s, ('rec', cls, tuple(sorted(fs.items()))))]
                if not (e['t'].endswith(']') or 'initializer_list' in e['t']) and len(vs) == 1:
                    return [(s, vs[0])]
                if len(vs) == 0 and not e['t'].endswith(']'):
                    return [(s, I(0) if int_type(e['t']) else FALSE if _tclean(e['t']) == 'bool' else ('flt', 0.0) if _tclean(e['t']) in FLOAT_T else ('dflt', _tclean(e['t'])))]
                return [(s, ('vec', tuple(vs)))]
            return self.bind(self.evs(args, st, fr), mk)
        if k == 'lambda':
            return [(st, self.mk_lambda(e, st, fr))]
        if k == 'new':
            c = e.get('cexpr') or e.get('init')
            if c is None:
                return [(st, ('addr', self.tmp(st, ('dflt', e['of']), 'heap')))]
            return self.bind(self.ev(c, st, fr), lambda s, v: [(s, ('addr', self.tmp(s, v, 'heap')))])
        if k == 'delete':
            return self.bind(self.ev(e['e'], st, fr), lambda s, v: self.emit(s, 'call', 'delete', v, (), fr, e))
        if k == 'throw':
            if e.get('e') is None:
                st.out = ('throw', 'rethrow', None, self.where(fr, e))
                return [(st, None)]

            def th(s, v):
                s.out = ('throw', e.get('tt') or '?', v, self.where(fr, e))
                return [(s, None)]
            return self.bind(self.ev(e['e'], st, fr), th)
        if k == 'stmtexpr':
            r = []
            for s in self.ex(e['body'], st, fr):
                r.append((s, ('void',)))
            return r
        if k == 'methref':
            return self.bind(self.ev(e['b'], st, fr), lambda s, v: [(s, ('methref', e['q'], v))])
        if k == 'typeid':
            return [(st, ('call', 'typeid', ('str', e.get('of', '?'))))]
        return [(st, ('unk', e.get('what') or k, e.get('line')))]

    def emit(self, s, kind, name, recv, args, fr, node):
        s.events.append(Event(kind, name, recv, tuple(args), self.where(fr, node), len(s.lits)))
        return [(s, ('void',))]

    def type_cls(self, t):
        t = _tclean(t)
        t = t.rstrip('*').strip()
        if t.startswith('const '):
            t = t[6:]
        return t.split('<')[0].strip()

    def dyn_of(self, st, v):
        """Known dynamic class of the object a pointer/loc refers to."""
        if v is None:
            return None
        if v[0] == 'addr':
            v = self.read(st, v[1])
        if v[0] == 'rec' and v[1] in self.P.classes:
            return v[1]
        if v[0] == 'obj':
            return v[2]
        return None

    def ev_un(self, e, st, fr):
        o = e['op']
        if o == '&':
            if e['e']['k'] == 'fnref':
                return self.ev(e['e'], st, fr)
            return self.bind(self.lv(e['e'], st, fr), lambda s, loc: [(s, loc[1] if loc[0] == 'fld' and loc[2] == '$deref' else ('addr', loc))])
        if o == '*':
            return self.bind(self.lv(e, st, fr), lambda s, loc: [(s, self.read(s, loc))])
        if o in ('++', '--'):
            def f(s, loc):
                old = self.read(s, loc)
                t = _tclean(e['e']['t'])
                if old[0] in ('begin', 'iter_any', 'itadd', 'find', 'end'):
                    new = ('itadd', old, 1 if o == '++' else -1)
                else:
                    new = add(old, I(1 if o == '++' else -1)) if t not in FLOAT_T else ('op', 'f+', old, ('flt', 1.0))
                self.write(s, loc, new, self.where(fr, e))
                return [(s, old if e.get('post') else new)]
            return self.bind(self.lv(e['e'], st, fr), f)
        if o == '!':
            return self.bind(self.ev(e['e'], st, fr), lambda s, v: [(s, NOT(self.tobool(v, e['e']['t'])))])
        if o == '-':
            if _tclean(e['t']) in FLOAT_T:
                return self.bind(self.ev(e['e'], st, fr), lambda s, v: [(s, ('flt', -v[1]) if v[0] == 'flt' else ('op', 'fneg', v, v))])
            return self.bind(self.ev(e['e'], st, fr), lambda s, v: [(s, neg(v))])
        if o == '~':
            return self.bind(self.ev(e['e'], st, fr), lambda s, v: [(s, bnot(v))])
        return self.ev(e['e'], st, fr)

    def cmp(self, o, a, b, sg):
        if o == '==':
            return eq(a, b)
        if o == '!=':
            return NOT(eq(a, b))
        if o == '<':
            return lt(a, b, sg)
        if o == '>':
            return lt(b, a, sg)
        if sg == 'f':   # NaN: keep <= distinct from !(>)
            return OR(lt(a, b, 'f'), eq(a, b)) if o == '<=' else OR(lt(b, a, 'f'), eq(a, b))
        if o == '<=':
            return NOT(lt(b, a, sg))
        if o == '>=':
            return NOT(lt(a, b, sg))

    def ev_bin(self, e, st, fr):
        o = e['op']
        if o in ('&&', '||'):
            isand = o == '&&'
            l = self.pure_pair(e['l'], st, fr)
            if l is not None:
                a = self.tobool(l[0], e['l']['t'])
                if a[0] == 'bool':
                    if a[1] == isand:
                        return self.bind(self.ev(e['r'], l[1], fr), lambda s, v: [(s, self.tobool(v, e['r']['t']))])
                    return [(l[1], a)]
                r = self.pure_pair(e['r'], l[1], fr)
                if r is not None:
                    b = self.tobool(r[0], e['r']['t'])
                    return [(r[1], AND(a, b) if isand else OR(a, b))]
            return [(s, (TRUE if b else FALSE) if s.out is None else None) for s, b in self.cond(e, st, fr)]
        if o == ',':
            return self.bind(self.ev(e['l'], st, fr), lambda s, _: self.ev(e['r'], s, fr))

        def f(s, vs):
            a, b = vs
            lt_, rt_ = _tclean(e['l']['t']), _tclean(e['r']['t'])
            sg = 'f' if lt_ in FLOAT_T or rt_ in FLOAT_T else sign_of(lt_)
            if o in ('<<', '>>') and sg != 'f':
                sg = sign_of(lt_)
            if o in ('==', '!=', '<', '>', '<=', '>='):
                if lt_ == 'bool' and rt_ == 'bool' or (is_boolean(a) and is_boolean(b)):
                    if o == '!=' and a[0] != 'bool' and b[0] != 'bool':
                        return [(s, NOT(eq(a, b)))]
                return [(s, self.cmp(o, a, b, sg))]
            if o == '<=>':
                return [(s, ('cmp3', a, b))]
            if lt_.endswith('*') and o in ('+', '-') and a[0] not in ('int',):
                return [(s, ('ptradd', a, b) if o == '+' else ('ptrsub', a, b))]
            return [(s, op(o, a, b, sg))]
        return self.bind(self.evs([e['l'], e['r']], st, fr), f)

    def ev_rewop(self, e, st, fr):
        inner = e.get('sem')

        def find(n):
            if isinstance(n, dict):
                if n.get('k') == 'call' and n.get('op') in ('==', '<=>', '<') and n.get('fn') in self.P.funcs and not self.P.funcs[n['fn']].get('defaulted'):
                    return True
                return any(find(v) for kk, v in n.items() if kk in ('e', 'l', 'r', 'args', 'obj')) if n.get('k') in ('un', 'bin', 'call', 'cast') else False
            if isinstance(n, list):
                return any(find(x) for x in n)
            return False
        if inner and find(inner):
            return self.ev(inner, st, fr)
        def f(s, vs):
            import stdmodel
            t = stdmodel.opt_cmp(self, e['op'], e['args'][0]['t'], e['args'][1]['t'], vs[0], vs[1])
            return [(s, t if t is not None else self.cmp(e['op'], vs[0], vs[1], 's'))]
        return self.bind(self.evs(e['args'], st, fr), f)

    def ev_assign(self, e, st, fr):
        def f(s, loc):
            def g(s2, v):
                if e['op']:
                    old = self.read(s2, loc)
                    t = _tclean(e['l']['t'])
                    sg = 'f' if t in FLOAT_T else sign_of(t)
                    if t.endswith('*'):
                        v2 = ('ptradd', old, v if e['op'] == '+' else neg(v))
                    else:
                        v2 = op(e['op'], old, v, sg)
                        if t == 'bool' and e['op'] in ('&', '|', '^') and not is_boolean(v2):
                            a, b = self.tobool(old), self.tobool(v, e['r']['t'])
                            v2 = AND(a, b) if e['op'] == '&' else OR(a, b) if e['op'] == '|' else NOT(eq(a, b))
                else:
                    v2 = v
                self.write(s2, loc, v2, self.where(fr, e))
                return [(s2, v2)]
            return self.bind(self.ev(e['r'], s, fr), g)
        return self.bind(self.lv(e['l'], st, fr), f)

    # ------------------------------------------------------------------------------------ lambdas
    def mk_lambda(self, e, st, fr):
        caps = []
        for c in e['caps']:
            if c.get('this'):
                caps.append(('this', fr.this or ('addr', ('this',))))
            elif c.get('byref'):
                loc = ('var', c['id'], fr.depth)
                caps.append((c['id'], 'ref', st.alias.get(loc, loc)))
            elif c.get('initcap') and c.get('init'):
                r = self.ev(c['init'], st.copy(), fr)
                caps.append((c['id'], 'val', r[0][1] if len(r) == 1 and r[0][1] is not None else ('unk', 'cap', 0)))
            else:
                loc = ('var', c['id'], fr.depth)
                caps.append((c['id'], 'val', self.read(st, st.alias.get(loc, loc))))
        key = '%s@%s' % (e.get('cls') or '', e.get('line'))
        self.lams[key] = (e, fr.fn)
        return ('lambda', key, tuple(caps))

    def call_lambda(self, lam, args, locs, st, fr, node, argtypes=None):
        e, deffn = self.lams[lam[1]]
        bodies = e['bodies']
        body = None
        if len(bodies) == 1:
            body = bodies[0]
        elif argtypes:
            for b in bodies:
                if [_tclean(p['t']) for p in b['params']] == [_tclean(t) for t in argtypes]:
                    body = b
        if body is None and bodies:
            body = bodies[0] if not argtypes else None
        if body is None or 'body' not in body:
            return [(st, ('V', ('unk', 'lambda', 0)))]
        d = fr.depth + 1
        this = None
        for c in lam[2]:
            if c[0] == 'this':
                this = c[1]
            elif c[1] == 'ref':
                st.alias[('var', c[0], d)] = c[2]
            else:
                st.alias.pop(('var', c[0], d), None)
                st.store[('var', c[0], d)] = c[2]
        return self.enter(body, args, locs, st, fr, this, node, fnq=deffn)

    # --------------------------------------------------------------------------------------- calls
    def enter(self, f, args, locs, st, fr, this, node, fnq=None, dyncls=None):
        """Inline function object f. args: values, locs: locs for reference parameters."""
        d = fr.depth + 1
        if d > self.max_depth:
            raise PathLimit()
        fn2 = {'q': f['q'] if fnq is None else fnq['q'], 'file': f.get('file') or (fnq or {}).get('file', '?'), 'retref': f.get('retref'), 'line': f.get('line')}
        self.visited.add(f['q'] if fnq is None else fnq['q'])
        nf = Frame(d, this, fn2, fr.stack + (f.get('fn') or id(f),), dyncls)
        for p, a, l in zip(f['params'], args, locs):
            vl = ('var', p['id'], d)
            if p.get('ref') and l is not None:
                st.alias[vl] = l
                st.store.pop(vl, None)
            else:
                st.alias.pop(vl, None)
                st.store[vl] = a
        outs = []
        for s in self.ex(f['body'], st, nf):
            if s.out is None:
                outs.append((s, ('V', ('void',))))
            elif s.out[0] == 'return':
                r = s.out[1]
                s.out = None
                outs.append((s, r))
            else:
                outs.append((s, None))
            self.leave(s, d)
        return outs

    def leave(self, s, d):
        dead = [k for k in s.store if (r := self.root(k))[0] == 'var' and r[2] >= d]
        for k in dead:
            del s.store[k]
        dead = [k for k in s.alias if k[2] >= d]
        for k in dead:
            del s.alias[k]

    def is_opaque(self, q, node):
        if match(q, self.opaque) or match(q, self.pure):
            return True
        if self.noinline_pred and node.get('fn') not in self.P.throwers() and self.noinline_pred(q, node):
            return True
        return False

    def opaque_call(self, st, fr, node, q, recv, args, objloc=None, locs=()):
        # instances of a template that the arguments do not tell apart (FindDieAttribute<ATTR_name>)
        ta = [x for x in map(_tclean, node.get('targs') or ()) if not any(x in p for p in node.get('pt') or ())]
        if ta and node.get('fn') in self.P.funcs:
            args = tuple(args) + (('str', '<%s>' % ', '.join(ta)),)
        if self.mr is not None:
            return self.modular_call(st, fr, node, q, recv, args, locs)
        if match(q, self.pure):
            r = ('call', q) + ((recv,) if recv is not None else ()) + tuple(args)
            return [(st, ('L', r) if (self.P.funcs.get(node.get('fn')) or {}).get('retref') else ('V', r))]
        n = sum(1 for e in st.events if e.kind == 'call' and e.name == q)
        st.events.append(Event('call', q, recv, tuple(args), self.where(fr, node), len(st.lits)))
        res = ('ret', q, n, ((recv,) if recv is not None else ()) + tuple(args))
        if _tclean(node.get('t', '')) == 'bool':
            res = ('typed', 'bool', res)
        out = [(st, ('V', res))]
        for pat, exc in self.may_throw.items():
            if match(q, (pat,)):
                s2 = st.copy()
                s2.out = ('throw', exc, res, self.where(fr, node))
                out.append((s2, None))
        return out

    retpath = {}

    def modular_call(self, st, fr, node, q, recv, args, locs):
        """Call of a function kept opaque, with its mod/ref effect: by-reference arguments, the fields it changes and (for a
        local receiver) the receiver get new values; the event carries the changed state the callee can see."""
        fn = node.get('fn')
        mod, ref, mparams, mthis = self.mr.info(q, fn)
        n = sum(1 for e in st.events if e.kind == 'call' and e.name == q)
        loc_recv = recv
        lrecv = recv is not None and self.local(recv)
        if lrecv:
            recv = self.read(st, recv)
        vis = tuple(sorted(((k, v) for k, v in st.store.items() if not self.local(k) and self.fields_of(k) & ref), key=repr))
        args = tuple(args)
        # what was written to fields the callee may overwrite without reading them: it shows if the callee leaves them alone
        pend = tuple(sorted(((k, v) for k, v in st.store.items() if not self.local(k) and self.fields_of(k) & mod and not self.fields_of(k) & ref), key=repr))
        st.events.append(Event('call', q, recv, args + ((('vis', vis),) if vis else ()) + ((('mvis', pend),) if pend else ()), self.where(fr, node), len(st.lits)))
        res = ('ret', q, n, ((recv,) if recv is not None else ()) + args + ((('vis', vis),) if vis else ()))
        rt = node.get('t', '')
        if _tclean(rt) == 'bool':
            val = ('typed', 'bool', res)
        else:
            val = res
        for i, l in enumerate(locs):
            if l is not None and i in mparams and i < len(node.get('pt', [])) and not node['pt'][i].startswith('const '):
                self.write(st, l, ('outarg', i, res), None, False)
        if mod:
            self.kill(st, mod, (q, n))
        if lrecv and mthis:
            self.write(st, loc_recv, ('post', res), None, False)
        rp = self.retpath.get(fn)
        if rp and not lrecv and loc_recv is not None and rp[0] in mod:
            # the callee returns the value it leaves in one of its object's fields
            l = loc_recv
            for x in rp:
                l = ('fld', l, x)
            val = self.read(st, l)
        f = self.P.funcs.get(fn) or {}
        extra = []
        if self.trys:
            th = self.mr.throws(q, fn)
            cts = sorted({ct for ct in self.trys[-1] if any(x == '?' or ct is None or self.catches(x, ct) or self.catches(ct, x) for x in th)}, key=lambda c: (c is None, c or ''))
            # one outcome per handler, independent of their order
            for i, ct in enumerate(cts):
                s2 = st.copy()
                s2.lits[('throws', res)] = True
                for c in cts[:i]:
                    s2.lits[('throws', res, c)] = False
                if i < len(cts) - 1:
                    s2.lits[('throws', res, ct)] = True
                s2.out = ('throw', ct or '?', ('exc', res), self.where(fr, node))
                extra.append((s2, None))
            if cts:
                st.lits[('throws', res)] = False
        if f.get('retref') or rt.endswith('&'):
            return [(st, ('L', res))] + extra
        return [(st, ('V', val))] + extra

    def call(self, e, st, fr):
        """Returns list of (st, ('L', loc) | ('V', value))."""
        q = e.get('q')
        if q is None:
            return self.call_indirect(e, st, fr)
        name = q.split('::')[-1]
        if not self.keep_log and q in LOGGERS:
            return [(st, ('V', ('void',)))]
        if q == '__assert_fail' or name in ('abort', 'terminate', '__builtin_unreachable', 'unreachable'):
            st.out = ('abort', name, self.where(fr, e))
            return [(st, None)]
        if name in ('exit', '_exit', 'quick_exit'):
            st.out = ('exit', name, self.where(fr, e))
            return [(st, None)]
        if name in ('reinterpret_safe', 'bit_cast') and len(e['args']) == 1:
            tob = _tclean(e['t']) not in FLOAT_T

            def rb(s, v):
                if v[0] == ('b2f' if tob else 'f2b'):
                    return [(s, ('V', v[1]))]
                return [(s, ('V', ('f2b' if tob else 'b2f', v)))]
            if tob != (_tclean(e['args'][0]['t']) not in FLOAT_T):
                return self.bind(self.ev(e['args'][0], st, fr), rb)
        f = self.P.funcs.get(e.get('fn'))
        import stdmodel
        if f is None and (e.get('cls') or '') not in self.P.classes:
            r = stdmodel.std_call(self, e, st, fr)
            if r is not None:
                return r
        # ---- repo function (or opaque/pure virtual)
        refs = [t.endswith('&') for t in e.get('pt', [])]
        refs += [False] * (len(e['args']) - len(refs))
        isref = refs

        def with_obj(s, objloc):
            def with_args(s2, vs):
                locs = [v if r else None for v, r in zip(vs, isref)]
                vals = [self.read(s2, v) if r else v for v, r in zip(vs, isref)]
                this = ('addr', objloc) if objloc is not None else None
                g = f
                dyn = None
                if objloc is not None:
                    dyn = self.dyn_of(s2, this)
                if e.get('virt') and not e.get('qualified'):
                    g = None
                    if dyn:
                        g = self.P.lookup_method(dyn, name, len(e['args']))
                    if g is None and self.virt:
                        g = self.virt(self, e, s2, objloc, vals)
                        if isinstance(g, list):
                            return g
                    if g is None and not dyn:
                        # a virtual method with a single implementation is resolved statically
                        impls = [i for i in [f] + [self.P.funcs.get(m['fn']) for m in self.P.overriders.get(e.get('fn'), [])] if i]
                        if len({i['fn'] for i in impls}) == 1 and not self.P.overriders.get(e.get('fn')):
                            g = impls[0]
                if self.is_opaque(q, e) or g is None or 'body' not in g or g['fn'] in fr.stack[-60:] and fr.stack.count(g['fn']) >= 1:
                    if g is not None and g.get('defaulted') and name == 'operator=':
                        self.write(s2, objloc, vals[0], self.where(fr, e))
                        return [(s2, ('L', objloc))]
                    if g is not None and g.get('defaulted') and e.get('op') in ('==', '<=>'):
                        return [(s2, ('V', eq(self.read(s2, objloc), vals[0])))]
                    recv = None
                    if objloc is not None:
                        recv = objloc
                    return self.opaque_call(s2, fr, e, q, recv, vals, objloc, locs)
                return self.enter(g, vals, locs, s2, fr, this, e)
            return self.bind(self.evs(e['args'], s, fr, isref), with_args)
        if e.get('obj') is not None and not e.get('static'):
            if e.get('arrow'):
                return self.bind(self.ev(e['obj'], st, fr), lambda s, p: with_obj(s, self.deref(p)))
            return self.bind(self.lv(e['obj'], st, fr), with_obj)
        return with_obj(st, None)

    def call_indirect(self, e, st, fr):
        ce = e.get('calleeexpr')

        def g(s, fv):
            return self.bind(self.evs(e['args'], s, fr), lambda s2, vs: self.apply(fv, vs, [None] * len(vs), s2, fr, e))
        if ce is None:
            return [(st, ('V', ('unk', 'call', e.get('line'))))]
        return self.bind(self.ev(ce, st, fr), g)

    def apply(self, fv, vals, locs, st, fr, node, argtypes=None):
        """Call a function value."""
        if fv[0] == 'lambda':
            return self.call_lambda(fv, vals, locs, st, fr, node, argtypes)
        if fv[0] == 'fn':
            f = self.P.funcs.get(fv[1])
            if f is None:
                return [(st, ('V', ('call', fv[2]) + tuple(vals)))]
            if self.is_opaque(fv[2], node) or 'body' not in f:
                return self.opaque_call(st, fr, node, fv[2], None, vals)
            lo = [l if l is not None else (self.tmp(st, v) if p.get('ref') else None) for p, l, v in zip(f['params'], locs, vals)]
            return self.enter(f, vals, lo, st, fr, None, node)
        if fv[0] == 'functor':      # std::plus and friends
            return [(st, ('V', fv[1](self, vals)))]
        if fv[0] == 'stdop':
            import stdmodel
            return [(st, ('V', stdmodel.functor(self, fv[1], vals, fv[2] if len(fv) > 2 else 's')))]
        if fv[0] == 'rec' and fv[1] in self.P.classes:
            g = self.P.lookup_method(fv[1], 'operator()')
            if g:
                return self.enter(g, vals, [self.tmp(st, v) if p.get('ref') else None for p, v in zip(g['params'], vals)], st, fr, ('addr', self.tmp(st, fv)), node)
        n = sum(1 for x in st.events if x.kind == 'call' and x.name == 'callback')
        st.events.append(Event('call', 'callback', fv, tuple(vals), self.where(fr, node), len(st.lits)))
        res = ('ret', 'callback', n, (fv,) + tuple(vals))
        if _tclean(node.get('t', '')) == 'bool':
            res = ('typed', 'bool', res)
        return [(st, ('V', res))]

    def ctor(self, e, st, fr):
        q = e['q']
        cls = q.rsplit('::', 1)[0]
        cls = e.get('cls') or cls
        import stdmodel
        if cls not in self.P.classes:
            return stdmodel.std_ctor(self, e, st, fr)
        f = self.P.funcs.get(e.get('fn'))
        if e.get('cm') and (f is None or f.get('defaulted') or 'body' not in f):
            return self.bind(self.ev(e['args'][0], st, fr), lambda s, v: [(s, self.expand(s, v, cls))])
        if f is not None and f.get('defaulted') and not f.get('inits'):
            f = None
        if f is None or 'body' not in f or self.is_opaque(q, e):
            if f is None and not e['args']:
                return self.default_rec(cls, st, fr)
            if f is None and len(e['args']) == 1 and e.get('cm'):
                return self.bind(self.ev(e['args'][0], st, fr), lambda s, v: [(s, self.expand(s, v, cls))])
            def mk(s, vs):
                if match(q, self.opaque):
                    s.events.append(Event('call', q, None, tuple(vs), self.where(fr, e), len(s.lits)))
                return [(s, ('new', cls) + tuple(vs))]
            return self.bind(self.evs(e['args'], st, fr), mk)
        refs = [p.get('ref') for p in f['params']]
        args = list(e['args'])[:len(f['params'])]
        if e.get('inherited') and not args:
            args = []

        def go(s, vs):
            vs = list(vs)
            if e.get('inherited') and not vs:
                # inheriting constructor: parameters of the enclosing constructor are forwarded
                vs = [('sym', 'arg%d' % i) for i in range(len(f['params']))]
                rr = [False] * len(vs)
            else:
                rr = refs
            locs = [v if r else None for v, r in zip(vs, rr)]
            vals = [self.read(s, v) if r else v for v, r in zip(vs, rr)]
            loc = self.tmp(s, ('rec', cls, ()))
            return self.run_ctor(f, cls, loc, vals, locs, s, fr, e)
        return self.bind(self.evs(args, st, fr, refs), go)

    def run_ctor(self, f, cls, loc, vals, locs, st, fr, node):
        d = fr.depth + 1
        if d > self.max_depth:
            raise PathLimit()
        nf = Frame(d, ('addr', loc), {'q': f['q'], 'file': f['file'], 'line': f['line']}, fr.stack + (f['fn'],))
        self.visited.add(f['q'])
        for p, a, l in zip(f['params'], vals, locs):
            vl = ('var', p['id'], d)
            if p.get('ref') and l is not None:
                st.alias[vl] = l
                st.store.pop(vl, None)
            else:
                st.alias.pop(vl, None)
                st.store[vl] = a
        res = [(st, None)]
        for ini in f.get('inits', []):
            def one(s, _, ini=ini):
                ie = ini['e']
                if 'field' in ini:
                    fty = next((x['t'] for x in self.P.classes.get(ini.get('cls'), {}).get('fields', []) if x['n'] == ini['field']), '')
                    return self.bind(self.ev(ie, s, nf), lambda s2, v: [(self.w(s2, ('fld', loc, ini['field']), v), None)])
                def base(s2, v):
                    cur = self.read(s2, loc)
                    if v[0] == 'rec' and cur[0] == 'rec':
                        fs = dict(cur[2])
                        fs.update(dict(v[2]))
                        s2.store[loc] = ('rec', cls, tuple(sorted(fs.items())))
                    elif cur[0] == 'rec':
                        fs = dict(cur[2])
                        fs['$base:' + (ini.get('base') or '')] = v
                        s2.store[loc] = ('rec', cls, tuple(sorted(fs.items())))
                    return [(s2, None)]
                return self.bind(self.ev(ie, s, nf), base)
            res = self.bind(res, one)
        outs = []
        for s, _ in res:
            if s.out is not None:
                outs.append((s, None))
                continue
            for s2 in self.ex(f['body'], s, nf):
                if s2.out is not None and s2.out[0] == 'return':
                    s2.out = None
                v = self.read(s2, loc)
                s2.store.pop(loc, None)
                self.leave(s2, d)
                outs.append((s2, v if s2.out is None else None))
        return outs

    def w(self, s, loc, v):
        self.write(s, loc, v, None, False)
        return s

    def default_rec(self, cls, st, fr):
        c = self.P.classes.get(cls)
        fs = {}
        s = st
        for b in c['bases']:
            if b in self.P.classes:
                r = self.default_rec(b, s, fr)
                s, v = r[0]
                if v[0] == 'rec':
                    fs.update(dict(v[2]))
        for fd in c['fields']:
            if fd.get('init') is not None:
                r = self.ev(fd['init'], s, fr)
                if len(r) == 1 and r[0][0].out is None:
                    s, v = r[0]
                    fs[fd['n']] = v
                    continue
            t = _tclean(fd['t'])
            if fd['cls'] in self.P.classes and not fd['t'].endswith('*'):
                cc = self.P.classes[fd['cls']]
                # a default constructor defined in the repo
                dc = [m for m in cc['methods'] if m.get('kind') == 'ctor' and not m['pt']]
                f = self.P.funcs.get(dc[0]['fn']) if dc else None
                if f and 'body' in f and not f.get('defaulted'):
                    loc = self.tmp(s, ('rec', fd['cls'], ()))
                    r = self.run_ctor(f, fd['cls'], loc, [], [], s, fr, {})
                    s, v = r[0]
                    fs[fd['n']] = v
                else:
                    r = self.default_rec(fd['cls'], s, fr)
                    s, fs[fd['n']] = r[0]
            elif fd['cls'] and not t.endswith('*'):
                fs[fd['n']] = self.std_default(fd['cls'], t)
            else:
                fs[fd['n']] = ('undef', cls, fd['n'])
        return [(s, ('rec', cls, tuple(sorted(fs.items()))))]

    def std_default(self, cls, t=''):
        if cls in ('std::vector', 'std::list', 'std::deque', 'std::array', 'std::initializer_list'):
            return ('vec', ())
        if cls in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::queue', 'std::stack', 'std::multimap'):
            return ('emptyc', cls)
        if cls in ('std::basic_string', 'std::basic_string_view', 'std::basic_stringstream', 'std::basic_ostringstream'):
            return ('str', '')
        if cls == 'std::optional':
            return ('none',)
        if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::function') or cls.endswith('exception_ptr'):
            return NULL
        return ('dflt', cls)

    # ---------------------------------------------------------------------------------- statements
    def ex(self, n, st, fr):
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                raise PathLimit()
        """Execute statement -> list of states."""
        if n is None:
            return [st]
        k = n['k']
        if k == 'block':
            states = [st]
            declared = []
            for c in n['b']:
                if c is None:
                    continue
                if c['k'] == 'decl':
                    declared += [v for v in c['vars'] if v.get('cls') in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock')]
                nxt = []
                for s in states:
                    if c['k'] == 'label' and s.out == ('goto', c['name']):
                        s.out = None
                    if s.out is not None:
                        nxt.append(s)
                    else:
                        nxt += self.ex(c, s, fr)
                states = self.dedupe(nxt)
                if len(states) > self.max_paths:
                    raise PathLimit()
            for v in reversed(declared):
                for s in states:
                    s.events.append(Event('unlock', 'unlock', self.read(s, ('var', v['id'], fr.depth)), (), (fr.fn.get('file', '?'), n.get('end', 0), fr.fn['q']), len(s.lits)))
            return states
        if k == 'expr':
            return [s for s, _ in self.ev(n['e'], st, fr)]
        if k == 'decl':
            states = [st]
            for v in n['vars']:
                nxt = []
                for s in states:
                    if s.out is not None:
                        nxt.append(s)
                    else:
                        nxt += self.declare(v, s, fr)
                states = nxt
            return states
        if k == 'if':
            return self.ex_if(n, st, fr)
        if k == 'return':
            if n.get('e') is None:
                st.out = ('return', ('V', ('void',)))
                return [st]
            outs = []
            if fr.fn.get('retref'):
                for s, l in self.lv(n['e'], st, fr):
                    if s.out is None:
                        s.out = ('return', ('L', l))
                    outs.append(s)
            else:
                for s, v in self.ev(n['e'], st, fr):
                    if s.out is None:
                        s.out = ('return', ('V', v))
                    outs.append(s)
            return outs
        if k == 'break':
            st.out = ('break',)
            return [st]
        if k == 'continue':
            st.out = ('continue',)
            return [st]
        if k == 'goto':
            st.out = ('goto', n['name'])        # forward jumps: resumed at the label
            return [st]
        if k == 'nop':
            return [st]
        if k == 'switch':
            return self.ex_switch(n, st, fr)
        if k in ('while', 'do', 'for', 'rangefor'):
            return self.ex_loop(n, st, fr)
        if k == 'try':
            return self.ex_try(n, st, fr)
        if k in ('case', 'default', 'label'):
            return self.ex(n['s'], st, fr)
        st.events.append(Event('unk', k, None, (), self.where(fr, n), len(st.lits)))
        return [st]

    def declare(self, v, st, fr):
        loc = ('var', v['id'], fr.depth)
        if v.get('static'):
            if v.get('init') is not None and v['id'] not in self.gcache and ('const' in v['t'].split('<')[0]):
                self.gcache[v['id']] = None
                try:
                    r = self.ev(v['init'], St(), Frame(0, None, fr.fn, ()))
                    if len(r) == 1 and r[0][0].out is None and not r[0][0].events and closed(r[0][1]):
                        self.gcache[v['id']] = r[0][1]
                except (PathLimit, RecursionError):
                    pass
            return [st]
        if v.get('ref') and v.get('init') is not None:
            outs = []
            for s, l in self.lv(v['init'], st, fr):
                if s.out is None:
                    s.alias[loc] = l
                    s.store.pop(loc, None)
                    self.bindings(v, s, fr, l)
                outs.append(s)
            return outs
        if v.get('init') is None:
            st.alias.pop(loc, None)
            if v.get('cls') in self.P.classes:
                st.store[loc] = ('undef', v['name'])
            elif v.get('cls') and not v['t'].endswith('*'):
                st.store[loc] = self.std_default(v['cls'], v['t'])
            else:
                st.store[loc] = ('undef', v['name'])
            return [st]
        outs = []
        for s, val in self.ev(v['init'], st, fr):
            if s.out is None:
                s.alias.pop(loc, None)
                if v.get('cls') in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock'):
                    s.events.append(Event('lock', 'lock', val, (), self.where(fr, v), len(s.lits)))
                self.write(s, loc, val, None, False)
                self.bindings(v, s, fr, loc)
            outs.append(s)
        return outs

    def bindings(self, v, s, fr, loc):
        for b in v.get('bindings', []):
            bl = ('var', b['id'], fr.depth)
            i = b['i']
            val = self.read(s, loc)
            if 'pair' in v['t'] or (val[0] == 'rec' and val[1] == 'pair'):
                s.alias[bl] = ('fld', loc, 'first' if i == 0 else 'second')
            elif val[0] == 'rec' and val[1] in self.P.classes:
                fl = [f['n'] for f in self.P.classes[val[1]]['fields']]
                s.alias[bl] = ('fld', loc, fl[i]) if i < len(fl) else loc
            else:
                s.alias[bl] = ('fld', loc, 'get%d' % i)

    def ex_if(self, n, st, fr):
        states = [st]
        if n.get('init'):
            states = self.ex(n['init'], st, fr)
        outs = []
        for s0 in states:
            if s0.out is not None:
                outs.append(s0)
                continue
            pre = [s0]
            if n.get('var'):
                pre = self.declare(n['var'], s0, fr)
            for s1 in pre:
                if s1.out is not None:
                    outs.append(s1)
                    continue
                if n.get('cv') is not None:
                    outs += self.ex(n['then'] if n['cv'] else n['else'], s1, fr)
                    continue
                for s2, b in self.cond(n['c'], s1, fr):
                    if s2.out is not None:
                        outs.append(s2)
                    else:
                        outs += self.ex(n['then'] if b else n['else'], s2, fr)
        return outs

    def dedupe(self, states):
        if not self.merge or len(states) < 2:
            return states
        groups = {}
        order = []
        for s in states:
            key = (tuple((e.kind, e.name, e.recv, e.args) for e in s.events), s.out, frozenset(s.store.items()), frozenset(s.alias.items()))
            try:
                hash(key)
            except TypeError:
                return states
            if key in groups:
                groups[key].append(s)
            else:
                groups[key] = [s]
                order.append(key)
        out = []
        lossy = len(states) > self.lossy_at
        for key in order:
            g = groups[key]
            if lossy:
                # too many states: keep the common facts only (weaker path condition, over-approximates)
                m = g[0]
                for s in g[1:]:
                    m.lits = {a: v for a, v in m.lits.items() if s.lits.get(a) == v}
                g = [m]
            else:
                # exact: two states that differ in the polarity of a single atom
                again = True
                while again and len(g) > 1:
                    again = False
                    for i in range(len(g)):
                        for j in range(i + 1, len(g)):
                            x, y = g[i].lits, g[j].lits
                            if len(x) == len(y):
                                d = [a for a, v in x.items() if y.get(a) is not v]
                                if len(d) == 1 and d[0] in y:
                                    del x[d[0]]
                                    g.pop(j)
                                    again = True
                                    break
                                if not d:
                                    g.pop(j)
                                    again = True
                                    break
                        if again:
                            break
            for s in g:
                s.events = [e._replace(nlit=min(e.nlit, len(s.lits))) for e in s.events]
            out += g
        return out

    def ex_switch(self, n, st, fr):
        states = [st]
        if n.get('init'):
            states = self.ex(n['init'], st, fr)
        if n.get('var'):
            states = [x for s in states for x in (self.declare(n['var'], s, fr) if s.out is None else [s])]
        flat = []   # list of (labels, stmt)

        def add_stmt(x):
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x)
                x = x['s']
            flat.append((labels, x))
        body = n['b']
        for c in (body['b'] if body['k'] == 'block' else [body]):
            add_stmt(c)
        outs = []
        for s0 in states:
            if s0.out is not None:
                outs.append(s0)
                continue
            for s, v in self.ev(n['c'], s0, fr):
                if s.out is not None:
                    outs.append(s)
                    continue
                rest = [s]
                default_at = None
                starts = []
                for i, (labels, _) in enumerate(flat):
                    for l in labels:
                        if l['k'] == 'default':
                            default_at = i
                            continue
                        nr = []
                        for r in rest:
                            cr = self.ev(l['v'], r, fr)
                            r2, cv = cr[0]
                            for r3, b in self.branch(eq(v, cv), r2):
                                if b:
                                    starts.append((r3, i))
                                else:
                                    nr.append(r3)
                        rest = nr
                for r in rest:
                    if default_at is not None:
                        starts.append((r, default_at))
                    else:
                        outs.append(r)
                for r, i in starts:
                    cur = [r]
                    for labels, stm in flat[i:]:
                        nxt = []
                        for c in cur:
                            if c.out is not None:
                                nxt.append(c)
                            else:
                                nxt += self.ex(stm, c, fr)
                        cur = self.dedupe(nxt)
                        if all(c.out is not None for c in cur):
                            break
                    for c in cur:
                        if c.out is not None and c.out[0] == 'break':
                            c.out = None
                        outs.append(c)
        return outs

    def ex_try(self, n, st, fr):
        outs = []
        if self.mr is not None:
            self.trys.append([c.get('t') for c in n['catches']])
        try:
            body = self.ex(n['b'], st, fr)
        finally:
            if self.mr is not None:
                self.trys.pop()
        for s in body:
            if s.out is None or s.out[0] != 'throw':
                outs.append(s)
                continue
            et = s.out[1]
            handled = False
            for c in n['catches']:
                ct = c.get('t')
                if ct is None or self.catches(et, ct):
                    ev = s.out
                    s.out = None
                    if c.get('var'):
                        loc = ('var', c['var']['id'], fr.depth)
                        s.alias.pop(loc, None)
                        s.store[loc] = ('exc', et, ev[2] if ev[2] is not None else NULL)
                    for s2 in self.ex(c['b'], s, fr):
                        if s2.out is not None and s2.out[0] == 'throw' and s2.out[1] == 'rethrow':
                            s2.out = ev
                        outs.append(s2)
                    handled = True
                    break
            if not handled:
                outs.append(s)
        return outs

    def catches(self, et, ct):
        if et == ct:
            return True
        if self.P.derives(et, ct):
            return True
        todo = [et] + self.P.bases_of(et)
        for x in todo:
            while x:
                if x == ct:
                    return True
                x = STD_EXC.get(x)
        return False

    # --------------------------------------------------------------------------------------- loops
    def ex_loop(self, n, st, fr):
        k = n['k']
        states = [st]
        if n.get('init') is not None and k in ('for', 'rangefor'):
            states = self.ex(n['init'], st, fr)
        outs = []
        for s in states:
            if s.out is not None:
                outs.append(s)
                continue
            if k == 'rangefor':
                outs += self.ex_range(n, s, fr)
            else:
                outs += self.ex_general(n, s, fr)
        return outs

    def loop_id(self, st, fr):
        if self.loopx:
            st.nloop += 1
            return 'L' + '.'.join(map(str, self.lnest + (st.nloop,)))
        # nesting/sequence ordinal: number of loops already on this path plus depth keeps ids deterministic
        return 'L%d.%d' % (fr.depth, sum(1 for e in st.events if e.kind == 'loop'))

    def ex_range(self, n, st, fr):
        outs = []
        rng = self.lv(n['range'], st, fr)
        for s, loc in rng:
            if s.out is not None:
                outs.append(s)
                continue
            val = self.read(s, loc)
            v = n['var']
            if val[0] == 'vec' and len(val[1]) <= self.unroll:
                cur, done = [s], []
                for i, item in enumerate(val[1]):
                    nxt = []
                    for c in cur:
                        self.bind_loop_var(v, c, fr, ('idx', loc, I(i)), item)
                        for r in self.ex(n['b'], c, fr):
                            if r.out is None or r.out[0] == 'continue':
                                r.out = None
                                nxt.append(r)
                            elif r.out[0] == 'break':
                                r.out = None
                                done.append(r)
                            else:
                                done.append(r)
                    cur = self.dedupe(nxt)
                outs += cur + done
                continue
            lid = self.loop_id(s, fr)
            eloc = ('elem', loc, lid)

            def body(c, eloc=eloc):
                self.bind_loop_var(v, c, fr, eloc, self.read(c, eloc))
                return [(c, r) for r in self.ex(n['b'], c, fr)]
            outs += self.summarise(s, fr, lid, lambda c: [(c, True)], lambda c: [r for _, r in body(c)], lambda c: [c], n,
                                   dom=self.read(s, loc))
        return outs

    def bind_loop_var(self, v, c, fr, eloc, val):
        loc = ('var', v['id'], fr.depth)
        if v.get('ref'):
            c.alias[loc] = eloc
            c.store.pop(loc, None)
            self.bindings(v, c, fr, eloc)
        else:
            c.alias.pop(loc, None)
            self.write(c, loc, val, None, False)
            self.bindings(v, c, fr, loc)

    def ex_general(self, n, st, fr):
        k = n['k']

        def cond(c):
            if k == 'do' or n.get('c') is None:
                return [(c, True)]
            if n.get('var'):
                r = []
                for x in self.declare(n['var'], c, fr):
                    r += self.cond(n['c'], x, fr) if x.out is None else [(x, False)]
                return r
            return self.cond(n['c'], c, fr)

        def body(c):
            return self.ex(n['b'], c, fr)

        def inc(c):
            if k == 'for' and n.get('inc') is not None:
                return [s for s, _ in self.ev(n['inc'], c, fr)]
            if k == 'do':
                return [c]
            return [c]
        # concrete unrolling while the condition is decided
        cur = [st.copy()]
        done, ok, iters = [], True, 0
        if k != 'do' and n.get('c') is not None and n['c'].get('k') not in ('bool', 'int'):
            try:
                while cur and iters <= self.unroll:
                    if len(cur) > 64:
                        ok = False
                        break
                    nxt = []
                    for c in cur:
                        nl = len(c.lits)
                        cs = cond(c)
                        if len(cs) != 1 or len(cs[0][0].lits) != nl:
                            ok = False
                            break
                        c2, b = cs[0]
                        if c2.out is not None or not b:
                            done.append(c2)
                            continue
                        for r in body(c2):
                            if r.out is None or r.out[0] == 'continue':
                                r.out = None
                                nxt += inc(r)
                            elif r.out[0] == 'break':
                                r.out = None
                                done.append(r)
                            else:
                                done.append(r)
                    if not ok:
                        break
                    cur = self.dedupe(nxt)
                    iters += 1
                if ok and not cur:
                    return done
            except PathLimit:
                pass
        lid = self.loop_id(st, fr)
        return self.summarise(st, fr, lid, cond, body, inc, n, do=(k == 'do'))

    def summarise(self, st, fr, lid, cond, body, inc, n, dom=None, do=False):
        if not self.loopx:
            return self.summarise0(st, fr, lid, cond, body, inc, n, dom, do)
        old, self.lnest = self.lnest, self.lnest + (st.nloop,)
        try:
            return self.summarise0(st, fr, lid, cond, body, inc, n, dom, do)
        finally:
            self.lnest = old

    def summarise0(self, st, fr, lid, cond, body, inc, n, dom=None, do=False):
        """Havoc-and-summarise: everything the body modifies gets an arbitrary value, then one iteration is analysed."""
        # 1. what does an iteration modify?
        modified = {}
        base = st.copy()
        vmod = set()            # fields changed by calls during an iteration
        for rnd in range(6):
            probe = base.copy()
            self.havoc(probe, modified, lid, base)
            if vmod:
                self.kill(probe, vmod, ('loop', lid))
            grew = False
            pre_store = dict(probe.store)
            pre_ev = len(probe.events)
            states = []
            for c, b in cond(probe):
                if c.out is None and b:
                    for r in body(c):
                        if r.out is None or r.out[0] == 'continue':
                            r.out = None
                            states += inc(r)
            if self.loopx:
                for loc in list(modified):
                    pv = pre_store.get(loc)
                    if pv is not None and modified[loc][0] == '+1' and any(r.store.get(loc) != add(pv, I(1)) for r in states):
                        modified[loc] = ('not+1', r.store.get(loc))
                        grew = True
            if self.loopx:
                hints = {}
                for r in states:
                    for loc in modified:
                        if r.store.get(loc) != pre_store.get(loc) and isinstance(r.store.get(loc), tuple):
                            callnames(r.store[loc], hints.setdefault(loc, set()))
                self.hints[lid] = hints
            if self.loopx:
                for r in states:
                    new = {f for f, t in r.vers.items() if probe.vers.get(f) != t} - vmod
                    if new:
                        vmod |= new
                        grew = True
            for r in states:
                for loc, v in r.store.items():
                    if pre_store.get(loc) != v:
                        rt = self.root(loc)
                        if rt[0] == 'var' and (rt[2] > fr.depth or (loc not in pre_store and loc == rt and rt not in base.store)):
                            continue
                        if rt[0] in ('tmp', 'heap') and rt not in base.store:
                            continue
                        if loc not in modified:
                            modified[loc] = v
                            if self.loopx and self.local(loc) and loc[0] == 'var' and pre_store.get(loc) is not None \
                                    and pre_store[loc][0] in ('int', 'poly', 'size', 'var', 'sym', 'ret', 'fld', 'arg', 'op', 'trunc', 'call') \
                                    and v == add(pre_store[loc], I(1)):
                                modified[loc] = ('+1', v)
                            grew = True
            if self.loopx:
                # writing the elements of a local container (for (auto& x : c) x = ...) changes the container
                for loc in list(modified):
                    x = loc
                    while isinstance(x, tuple) and x and x[0] != 'elem' and len(x) > 1 and isinstance(x[1], tuple):
                        x = x[1]
                    if isinstance(x, tuple) and x and x[0] == 'elem' and len(x) > 2 and x[2] == lid and isinstance(x[1], tuple):
                        c = x[1]
                        if c not in modified and c in base.store and self.local(c):
                            modified[c] = ('elems', base.store[c])
                            self.elemw.add(lid)
                            grew = True
            if not grew:
                break
        # 2. one arbitrary iteration
        pre = base.copy()
        self.havoc(pre, modified, lid, base)
        if vmod:
            self.kill(pre, vmod, ('loop', lid))
        n0, l0 = len(pre.events), len(pre.lits)
        outs, iters = [], []
        exits = []
        for c, b in cond(pre.copy()):
            if c.out is not None:
                exits.append(c)
                continue
            if not b:
                if not do:
                    exits.append(c)
                continue
            for r in body(c):
                if r.out is None or r.out[0] == 'continue':
                    r.out = None
                    for r2 in inc(r):
                        iters.append(r2)
                elif r.out[0] == 'break':
                    r.out = None
                    r.events = list(r.events)
                    exits.append(('brk', r))
                else:
                    exits.append(('brk', r))
        # iterator loop `for (it = c.begin(); it != c.end(); ...)`: the domain is the container
        if self.loopx and dom is None and not do and not any(not isinstance(x, tuple) for x in exits):
            its = [m for m in modified if base.store.get(m, ('?',))[0] == 'begin']
            if len(its) == 1:
                it = its[0]
                b = base.store[it]
                dom = self.read(base, b[2]) if len(b) > 2 else b[1]
                if all(r.store.get(it) == ('itadd', pre.store[it], 1) for r in iters):
                    modified[it] = ('+1', None)
        # exit through an exhausted domain: the state after any number of whole iterations
        if dom is not None:
            exits.append(pre.copy())
        summ = []
        if self.loopx:
            # index loop over a whole container = range loop
            ia = ('idx_any', lid)
            if dom is None:
                # start + i < bound  ->  i < bound - start   (wrap-around of the bound ignored)
                sub_ = {}
                for r in iters + [c[1] if isinstance(c, tuple) else c for c in exits]:
                    for a, v in list(r.lits.items())[l0:]:
                        if a[0] == 'lt' and a[2] != ia and a[2][0] == 'poly' and (((ia,), 1) in a[2][1]) and not contains(a[3], ia):
                            start = sub(a[2], ia)
                            if not contains(start, ia):
                                sub_[a] = lt(ia, sub(a[3], start), a[1])
                        if a[0] == 'eq' and (a[1] == ia) != (a[2] == ia):
                            # i == bound leaves an up-counting loop exactly when !(i < bound)
                            pass
                if sub_:
                    for r in iters + [c[1] if isinstance(c, tuple) else c for c in exits]:
                        r.lits = {sub_.get(a, a): v for a, v in r.lits.items()}
            if dom is None and not do:
                cands = [a for c in exits if not isinstance(c, tuple) for a, v in list(c.lits.items())[l0:]
                         if a[0] == 'lt' and a[2] == ia and (a[3][0] == 'size' or dropped(a[3])) and not v]
                if len(cands) == 1 and len([c for c in exits if not isinstance(c, tuple)]) == 1:
                    g = cands[0]
                    if all(list(r.lits.items())[l0:l0 + 1] == [(g, True)] for r in iters):
                        dom = g[3][1] if g[3][0] == 'size' else dropped(g[3])
                        for r in iters + [c[1] if isinstance(c, tuple) else c for c in exits]:
                            r.lits.pop(g, None)
                        exits = [x for x in exits if isinstance(x, tuple)] + [x for x in exits if not isinstance(x, tuple)]
            mods = sorted(modified, key=repr)
            keep = [m for m in mods if modified[m][0] != '+1']
            for r in iters:
                evs = tuple(r.events[n0:])
                lits = tuple((a, v) for a, v in list(r.lits.items())[l0:])
                upd = tuple((m, self.read(r, m)) for m in keep if not same_under(r.lits, self.read(r, m), pre.store.get(m)))
                evs, lits, upd = self.close(r, pre, evs), self.close(r, pre, lits), tuple((m, self.close(r, pre, v)) for m, v in upd)
                if (evs or upd) and (lits, evs, upd) not in summ:
                    summ.append((lits, evs, upd))
            if summ:
                summ.append((('init',), (), tuple((m, self.read(base, m), self.read(pre, m)) for m in keep)))
            if dom is not None:
                brks = [x[1] for x in exits if isinstance(x, tuple)]
                if brks:
                    a = ('brk', dom, lid)
                    if not summ and all(len(r.events) == n0 or True for r in brks):
                        d = FALSE
                        for r in brks:
                            c = TRUE
                            for at, v in list(r.lits.items())[l0:]:
                                c = AND(c, at if v else NOT(at))
                            d = OR(d, c)
                        a = ('any', dom, d)
                        for r in brks:
                            relid(r, l0, n0, lid, ('W', d), drop=len(brks) == 1)
                    for x in exits:
                        (x[1] if isinstance(x, tuple) else x).lits[a] = isinstance(x, tuple)
        else:
            for r in iters:
                evs = tuple(r.events[n0:])
                lits = tuple((a, v) for a, v in list(r.lits.items())[l0:])
                if evs and (lits, evs, None) not in summ:
                    summ.append((lits, evs, None))
        if self.loopx and dom is not None and len(iters) == 1 and len(summ) == 2 and not any(isinstance(x, tuple) for x in exits):
            lits, evs, upd = summ[0]
            if not lits and all(ev.kind == 'mut' for ev in evs):
                rest = []
                for m, v in upd:
                    hv = pre.store.get(m)
                    if self.local(m) and (v[0] == 'push' or v[0] == 'mset' and v[3] == TRUE) and v[1] == hv and not contains_havoc(v[2], lid):
                        val = ('mapped', self.read(base, m), dom, v[2])
                        for x in exits:
                            x.store[m] = val
                    else:
                        rest.append((m, v))
                if not rest and upd and len(set(m for m, _ in upd)) == len([m for m in keep if not self.read(pre, m) == self.read(iters[0], m)]):
                    summ = []
        lev = Event('loop', lid + ('d' if do else '') if self.loopx else lid, dom, tuple(summ), self.where(fr, n), l0) if summ else None
        if do:
            for r in iters:
                if n.get('c') is None:
                    continue
                for c, b in self.cond(n['c'], r.copy(), fr):
                    if c.out is not None or not b:
                        exits.append(('brk', c))
        for x in exits:
            brk = isinstance(x, tuple)
            r = x[1] if brk else x
            if lev is not None:
                r.events = r.events[:n0] + [lev] + r.events[n0:]
            outs.append(r)
        return self.dedupe(outs)

    def close(self, r, pre, t, busy=()):
        """objects created during an iteration are replaced by their contents at its end"""
        if not isinstance(t, tuple) or not t:
            return t
        if isinstance(t, Event):
            return t._replace(recv=self.close(r, pre, t.recv, busy), args=self.close(r, pre, t.args, busy))
        if t[0] in ('tmp', 'heap', 'var') and len(t) >= 2 and not isinstance(t[1], tuple):
            if t in r.store and t not in pre.store and t not in busy:
                return ('box', self.close(r, pre, self.whole(r, t), busy + (t,)))
            return t
        x = tuple(self.close(r, pre, y, busy) if isinstance(y, tuple) else y for y in t)
        return x if x != t else t

    @staticmethod
    def whole(r, loc):
        return r.store[loc]

    def havocx(self, s, modified, lid, base):
        """loopx: counters become start + iteration number, other locals get a name-independent havoc symbol"""
        names, groups = {}, {}
        for loc in modified:
            pv = base.store.get(loc)
            if pv is None:
                pv = self.read(base, loc)
            if modified[loc][0] == '+1' or pv[0] == 'begin':
                continue
            if self.local(loc):
                k = (repr(erase(pv)), sorted(self.hints.get(lid, {}).get(loc, ())), repr(erase(modified[loc])), repr(loc[2:]) if loc[0] != 'var' else '')
                k = (k[0], tuple(k[1])) + k[2:]
                groups.setdefault(k, []).append(loc)
            else:
                names[loc] = self.lname(loc)
        i = 0
        for k in sorted(groups):
            if len(groups[k]) > 1:
                self.ambiguous = True
            for loc in sorted(groups[k], key=repr):
                names[loc] = 'v%d' % i
                i += 1
        for loc in sorted(modified, key=repr):
            pv = base.store.get(loc)
            if pv is None:
                pv = self.read(base, loc)
            if pv[0] == 'begin':
                hv = ('iter_any', pv[2] if len(pv) > 2 else pv[1], lid)
            elif modified[loc][0] == '+1':
                hv = add(pv, ('idx_any', lid))
            else:
                hv = ('havoc', lid, names[loc])
                if is_boolean(pv):
                    hv = ('typed', 'bool', hv)
            dead = [k for k in s.store if k[0] in ('fld', 'idx', 'elem') and self.is_prefix(loc, k)]
            for k in dead:
                del s.store[k]
            s.store[loc] = hv

    def havoc(self, s, modified, lid, base):
        if self.loopx:
            return self.havocx(s, modified, lid, base)
        for loc in sorted(modified, key=repr):
            pv = base.store.get(loc)
            if pv is None:
                pv = self.read(base, loc)
            if pv[0] == 'begin':
                hv = ('iter_any', pv[2] if len(pv) > 2 else pv[1], lid)
            elif pv == I(0) and modified[loc][0] in ('int', 'poly'):
                hv = ('idx_any', lid)
            else:
                hv = ('havoc', lid, self.lname(loc))
                if is_boolean(pv):
                    hv = ('typed', 'bool', hv)
            dead = [k for k in s.store if k[0] in ('fld', 'idx', 'elem') and self.is_prefix(loc, k)]
            for k in dead:
                del s.store[k]
            s.store[loc] = hv

    # --------------------------------------------------------------------------------------- entry
    def run(self, f, this=None, args=None, st=None, dyncls=None):
        """Summarise function f. `this`: loc of the receiver; args: values for parameters."""
        st = st or St()
        if 'body' not in f:
            raise AnalysisError('no body for %s' % f['q'])
        this = this if this is not None else ('this',)
        fr = Frame(0, None, {'q': '<entry>', 'file': f.get('file', '?')}, ())
        vals, locs = [], []
        for i, p in enumerate(f['params']):
            a = args[i] if args and i < len(args) and args[i] is not None else ('sym', 'arg%d' % i)
            if self.loopx and a[0] == 'sym' and p.get('t') == 'bool' and not p.get('ref'):
                a = ('typed', 'bool', a)
            vals.append(a)
            if p.get('ref'):
                if a[0] in ('sym', 'this', 'obj', 'global') or (a[0] == 'fld'):
                    locs.append(a)
                else:
                    locs.append(self.tmp(st, a))
            else:
                locs.append(None)
        d = 1
        nf = Frame(d, ('addr', this), {'q': f['q'], 'file': f['file'], 'retref': f.get('retref'), 'line': f['line']}, (f['fn'],), dyncls)
        self.visited.add(f['q'])
        for p, a, l in zip(f['params'], vals, locs):
            vl = ('var', p['id'], d)
            if p.get('ref') and l is not None:
                st.alias[vl] = l
            else:
                st.store[vl] = self.expand(st, a, _tclean(p.get('t') or '')) if not p.get('ref') else a
        if f.get('kind') == 'ctor':
            st.store[this] = ('rec', f['cls'], ())
            outs = []
            for s, v in self.run_ctor(f, f['cls'], this, vals, locs, st, fr, {}):
                s.out = s.out or ('return', v)
                outs.append(Path(s))
            return outs
        outs = []
        for s in self.ex(f['body'], st, nf):
            if s.out is None:
                s.out = ('return', ('void',))
            elif s.out[0] == 'return':
                r = s.out[1]
                s.out = ('return', self.read(s, r[1]) if r[0] == 'L' else r[1], r[1] if r[0] == 'L' else None)
            outs.append(Path(s))
        if len(outs) > self.max_paths:
            raise PathLimit()
        return outs
