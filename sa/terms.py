"""The value-number domain: canonical terms, and their evaluation in a small-width bit-vector domain.

Terms are nested tuples.  Integer arithmetic is kept as a polynomial normal form, comparisons are reduced to
`eq`/`lt`, containers and strings have canonical constructors, so that syntactically different but equal
expressions get the same term."""

TRUE, FALSE = ('bool', True), ('bool', False)
NULL = ('null',)
INT_T = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
         'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
         'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
         '__int128': (128, True), 'unsigned __int128': (128, False), 'char8_t': (8, False), 'wchar_t': (32, True)}
FLOAT_T = {'double', 'float', 'long double'}


def I(n):
    return ('int', n)


def is_const(t):
    return t[0] in ('int', 'str', 'enum', 'bool', 'null', 'flt', 'none')


def cval(t):
    """Python value of a constant term usable as an integer."""
    if t[0] == 'int':
        return t[1]
    if t[0] == 'bool':
        return 1 if t[1] else 0
    if t[0] == 'enum':
        return t[2]
    return None


def as_int(t):
    if t[0] in ('bool', 'enum') :
        return I(cval(t))
    return t


# ---- polynomials ---------------------------------------------------------------------------------------
def _poly(t):
    t = as_int(t)
    if t[0] == 'poly':
        return dict(t[1])
    if t[0] == 'int':
        return {(): t[1]} if t[1] else {}
    return {(t,): 1}


def _mk(p):
    p = {k: v for k, v in p.items() if v}
    if not p:
        return I(0)
    if len(p) == 1:
        (k, v), = p.items()
        if k == ():
            return I(v)
        if v == 1 and len(k) == 1:
            return k[0]
    return ('poly', tuple(sorted(p.items(), key=repr)))


def add(a, b):
    p = _poly(a)
    for k, v in _poly(b).items():
        p[k] = p.get(k, 0) + v
    return _mk(p)


def neg(a):
    return _mk({k: -v for k, v in _poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > 64:
        return ('op', '*', a, b)
    r = {}
    for ka, va in pa.items():
        for kb, vb in pb.items():
            k = tuple(sorted(ka + kb, key=repr))
            r[k] = r.get(k, 0) + va * vb
    return _mk(r)


COMM = {'&', '|', '^', 'f+', 'f*', 'min', 'max'}


def op(o, a, b, sign='s'):
    """Binary integer/float operation. `sign`: s, u (integers) or f."""
    if sign == 'f':
        o2 = 'f' + o
        if o2 in COMM and repr(b) < repr(a):
            a, b = b, a
        return ('op', o2, a, b)
    if o == '+':
        return add(a, b)
    if o == '-':
        return sub(a, b)
    if o == '*':
        return mul(a, b)
    a, b = as_int(a), as_int(b)
    if o == '<<' and b[0] == 'int' and 0 <= b[1] < 64:
        return mul(a, I(1 << b[1]))
    if a[0] == 'int' and b[0] == 'int':
        x, y = a[1], b[1]
        try:
            if o == '/':
                return I(int(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)))
            if o == '%':
                return I(abs(x) % abs(y) * (1 if x >= 0 else -1))
            if o == '&':
                return I(x & y)
            if o == '|':
                return I(x | y)
            if o == '^':
                return I(x ^ y)
            if o == '<<':
                return I(x << y)
            if o == '>>':
                return I(x >> y)
        except Exception:
            pass
    if o == '^' and b == I(-1):
        return sub(neg(a), I(1))
    if o == '^' and a == I(-1):
        return sub(neg(b), I(1))
    if o in COMM:
        if repr(b) < repr(a):
            a, b = b, a
        return ('op', o, a, b)
    if o in ('/', '%', '>>'):
        return ('op', o + sign, a, b)
    return ('op', o, a, b)


def bnot(a):
    return sub(neg(a), I(1))


# ---- booleans -------------------------------------------------------------------------------------------
def NOT(a):
    if a[0] == 'bool':
        return FALSE if a[1] else TRUE
    if a[0] == 'not':
        return a[1]
    return ('not', a)


def eq(a, b):
    if a == b and a[0] != 'op':
        return TRUE
    # bool compared with a constant
    for x, y in ((a, b), (b, a)):
        if y[0] == 'bool' and is_boolean(x):
            return x if y[1] else NOT(x)
        if is_boolean(x) and y[0] == 'int' and y[1] in (0, 1):
            return x if y[1] else NOT(x)
    if is_const(a) and is_const(b):
        ca, cb = cval(a), cval(b)
        if ca is not None and cb is not None:
            return TRUE if ca == cb else FALSE
        return TRUE if a == b else FALSE
    for x, y in ((a, b), (b, a)):
        if x[0] == 'find' and y[0] == 'end':
            if x[1][0] == 'lmap':
                r = FALSE
                for k2, _ in x[1][1]:
                    r = OR(r, eq(x[2], k2))
                return NOT(r)
            return NOT(('has', x[1], x[2]))
        if x[0] == 'none' and y[0] == 'some':
            return FALSE
        if y[0] == 'end' and x[0] in ('iter_any', 'begin_nonempty', 'max_element', 'min_element'):
            return FALSE
        if y[0] == 'null' and x[0] == 'addr':
            return FALSE
        if y[0] == 'npos' and x[0] in ('int',):
            return FALSE
        if y == I(0) and x[0] == 'size':
            return ('empty', x[1])
        if x[0] == 'begin' and y[0] == 'end':
            return ('empty', x[1])
        if y[0] == 'null':
            return NOT(('nn', x))
        if y[0] == 'none':
            return NOT(('has_value', x))
        if y == ('str', '') :
            return ('empty', x)
    if a[0] == 'poly' or b[0] == 'poly':
        # move everything to one side, normalise the sign
        d = sub(a, b)
        if d[0] == 'int':
            return TRUE if d[1] == 0 else FALSE
        if d[0] == 'poly':
            p = dict(d[1])
            c = p.pop((), 0)
            lead = p[sorted(p, key=repr)[0]]
            if lead < 0:
                p = {k: -v for k, v in p.items()}
                c = -c
            rest = _mk(p)
            return ('eq', rest, I(-c)) if repr(rest) < repr(I(-c)) else ('eq', I(-c), rest)
    if repr(b) < repr(a):
        a, b = b, a
    return ('eq', a, b)


def lt(a, b, sign='s'):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        if sign == 'u':
            ca, cb = ca % (1 << 64), cb % (1 << 64)
        return TRUE if ca < cb else FALSE
    if a[0] == 'flt' and b[0] == 'flt':
        return TRUE if a[1] < b[1] else FALSE
    if a == b:
        return FALSE
    if sign == 'u':
        if b == I(0):
            return FALSE
        # 0 < n and n < 1 on unsigned values are zero tests
        if a == I(0):
            return NOT(eq(b, I(0)))
        if b == I(1):
            return eq(a, I(0))
    return ('lt', sign, a, b)


BOOLHEADS = {'eq', 'lt', 'not', 'and', 'or', 'has', 'has_value', 'nn', 'empty', 'holds', 'any', 'all', 'isinf', 'bool',
             'starts_with', 'ends_with', 'isa', 'ovf', 'truth', 'throws'}


def is_boolean(t):
    return t[0] in BOOLHEADS or (t[0] == 'call' and t[1] in BOOLCALLS) or (t[0] == 'typed' and t[1] == 'bool')


BOOLCALLS = set()


def AND(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return ('and', a, b)


def OR(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    return ('or', a, b)


def ITE(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    return ('ite', c, a, b)


def cat(*parts):
    out = []
    for p in parts:
        ps = p[1] if p[0] == 'cat' else (p,)
        for q in ps:
            if q[0] == 'str' and q[1] == '':
                continue
            if q[0] == 'str' and out and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return ('str', '')
    if len(out) == 1 and out[0][0] in ('str',):
        return out[0]
    return ('cat', tuple(out))


def subterms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
                if x[0] == 'rec' and len(x) == 3:
                    todo.extend(v for _, v in x[2])
                    continue
            todo.extend(y for y in x if isinstance(y, tuple))


def subst(t, m):
    """Replace sub-terms (structural) bottom-up, rebuilding canonical forms where cheap."""
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'rec' and len(t) == 3:
        r = ('rec', t[1], tuple((n, subst(v, m)) for n, v in t[2]))
    else:
        r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if r in m:
        return m[r]
    if r != t:
        return renorm(r)
    return r


def renorm(t):
    h = t[0] if t and isinstance(t[0], str) else None
    if h == 'poly':
        acc = I(0)
        for k, v in t[1]:
            m = I(v)
            for f in k:
                m = mul(m, I(1 if f[1] else 0) if f[0] == 'bool' else f)
            acc = add(acc, m)
        return acc
    if h == 'eq':
        return eq(t[1], t[2])
    if h == 'lt':
        return lt(t[2], t[3], t[1])
    if h == 'not':
        return NOT(t[1])
    if h == 'and':
        return AND(t[1], t[2])
    if h == 'or':
        return OR(t[1], t[2])
    if h == 'ite':
        return ITE(t[1], t[2], t[3])
    if h == 'cat':
        return cat(*t[1])
    if h == 'chr' and len(t) == 2 and t[1][0] == 'int' and 0 <= t[1][1] < 128:
        return ('str', chr(t[1][1]))
    return t


# ---- evaluation over w-bit words -------------------------------------------------------------------------
class Undef(Exception):
    pass


LIMITS = {(1 << 63) - 1: 'smax', -(1 << 63): 'smin', (1 << 64) - 1: 'umax', (1 << 63): 'smin'}


def teval(t, env, w):
    """Evaluate term t over w-bit two's complement words. 64-bit limit constants are scaled to width w.
    env maps terms to ints. Raises Undef on anything without a meaning here (also division by zero)."""
    M = 1 << w

    def S(x):
        x %= M
        return x - M if x >= M // 2 else x

    def const(c):
        k = LIMITS.get(c)
        if k == 'smax':
            return M // 2 - 1
        if k == 'smin':
            return -(M // 2)
        if k == 'umax':
            return -1
        if c == 64:
            return w
        if c == 63:
            return w - 1
        return c

    def ev(t):
        if t in env:
            return env[t]
        h = t[0]
        if h == 'int':
            return S(const(t[1]))
        if h == 'bool':
            return 1 if t[1] else 0
        if h == 'enum':
            return t[2]
        if h == 'poly':
            s = 0
            for k, v in t[1]:
                m = const(v) if k == () else v
                for f in k:
                    m *= ev(f)
                s += m
            return S(s)
        if h == 'not':
            return 0 if ev(t[1]) else 1
        if h == 'eq':
            return 1 if S(ev(t[1])) == S(ev(t[2])) else 0
        if h == 'lt':
            a, b = ev(t[2]), ev(t[3])
            if t[1] == 'u':
                return 1 if a % M < b % M else 0
            return 1 if S(a) < S(b) else 0
        if h == 'and':
            return 1 if ev(t[1]) and ev(t[2]) else 0
        if h == 'or':
            return 1 if ev(t[1]) or ev(t[2]) else 0
        if h == 'ite':
            return ev(t[2]) if ev(t[1]) else ev(t[3])
        if h == 'trunc':
            raise Undef(t)
        if h == 'ovf':
            a, b = S(ev(t[3])), S(ev(t[4]))
            if t[2] == 'u':
                a, b = a % M, b % M
            r = {'+': a + b, '-': a - b, '*': a * b}[t[1]]
            return int(not (0 <= r < M)) if t[2] == 'u' else int(S(r) != r)
        if h == 'op':
            a, b = ev(t[2]), ev(t[3])
            o = t[1]
            if o == '&':
                return S(a & b)
            if o == '|':
                return S(a | b)
            if o == '^':
                return S(a ^ b)
            if o in ('/s', '%s'):
                a, b = S(a), S(b)
                if b == 0:
                    raise Undef('div0')
                if a == -(M // 2) and b == -1:
                    raise Undef('divovf')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return S(q) if o == '/s' else S(a - q * b)
            if o in ('/u', '%u'):
                a, b = a % M, b % M
                if b == 0:
                    raise Undef('div0')
                return S(a // b) if o == '/u' else S(a % b)
            if o == '<<':
                if not 0 <= S(b) < w:
                    raise Undef('shift')
                return S(a << S(b))
            if o in ('>>s', '>>u'):
                if not 0 <= S(b) < w:
                    raise Undef('shift')
                return S(S(a) >> S(b)) if o == '>>s' else S((a % M) >> S(b))
        raise Undef(t)
    return ev(t)


def show(t, depth=0):
    """Short human readable rendering of a term, for reports."""
    if not isinstance(t, tuple):
        return str(t)
    if depth > 6:
        return '…'
    h = t[0] if t else ''
    s = lambda x: show(x, depth + 1)
    if h == 'int':
        return str(t[1])
    if h == 'str':
        return repr(t[1])
    if h == 'bool':
        return 'true' if t[1] else 'false'
    if h == 'enum':
        return t[1]
    if h == 'sym':
        return str(t[1]).split('#')[0]
    if h == 'this':
        return 'this'
    if h == 'fld':
        return s(t[1]) + '.' + str(t[2])
    if h == 'var':
        return str(t[1]).split('#')[0]
    if h == 'poly':
        return '(' + ' + '.join('*'.join(([str(v)] if v != 1 or not k else []) + [s(f) for f in k]) for k, v in t[1]) + ')'
    if h == 'eq':
        return '(%s == %s)' % (s(t[1]), s(t[2]))
    if h == 'lt':
        return '(%s < %s)' % (s(t[2]), s(t[3]))
    if h == 'not':
        return '!' + s(t[1])
    if h == 'op':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if h == 'ret':
        return '%s#%s(%s)' % (t[1].split('::')[-1], t[2], ', '.join(s(x) for x in t[3]))
    if h == 'call':
        return '%s(%s)' % (str(t[1]).split('::')[-1], ', '.join(s(x) for x in t[2:]))
    if h in ('at', 'idx'):
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if h == 'rec':
        return '%s{%s}' % (t[1].split('::')[-1], ', '.join('%s=%s' % (k, s(v)) for k, v in t[2]))
    if h == 'cat':
        return ' ++ '.join(s(x) for x in t[1])
    return '%s(%s)' % (h, ', '.join(s(x) for x in t[1:]))


# ---- random interpretation ------------------------------------------------------------------------------
# Two terms are compared by interpreting them in a family of pseudo-random algebras: leaves and uninterpreted
# functions get hashed values, arithmetic and boolean operators their meaning over 64-bit words.  A difference in
# one interpretation is a definite difference of the terms (no axiom of the domain is ignored for the heads below).
import hashlib
_BND = [0, 1, -1, 2, 3, 63, 64, 5, -7, (1 << 63) - 1, -(1 << 63), 100]


def _h(seed, key):
    d = hashlib.blake2b(repr((seed, key)).encode(), digest_size=9).digest()
    n = int.from_bytes(d[:8], 'little', signed=True)
    sel = d[8]
    if sel < 90:
        return _BND[sel % len(_BND)]
    if sel < 150:
        return n % 17 - 4
    return n


UNKNOWN_HEADS = ('unk', 'havoc', 'undef', 'oob', 'lambda', 'dflt')


class Unknown(Exception):
    pass


def rval(t, seed, forced=None, memo=None):
    """Value of t in interpretation `seed`: int for integer/boolean terms, otherwise a hashable token.
    forced: atoms with a fixed truth value (the literals of a path)."""
    memo = {} if memo is None else memo
    M64 = 1 << 64

    def S(x):
        x %= M64
        return x - M64 if x >= M64 // 2 else x

    def num(x):
        if isinstance(x, (int, float)):
            return x
        return _h(seed, ('num', x))

    def ev(t):
        if not isinstance(t, tuple):
            return t
        if t in memo:
            return memo[t]
        r = ev0(t)
        memo[t] = r
        return r

    def ev0(t):
        if forced and t in forced:
            return 1 if forced[t] else 0
        if not t or not isinstance(t[0], str):
            return tuple(ev(x) for x in t)
        h = t[0]
        if h == 'rec' and len(t) == 3:
            return ('rec', t[1], tuple((n, ev(v)) for n, v in t[2]))
        if h in UNKNOWN_HEADS:
            raise Unknown(t)
        if h == 'int':
            return S(t[1])
        if h == 'bool':
            return 1 if t[1] else 0
        if h == 'enum':
            return t[2]
        if h == 'str' or h == 'flt' or h == 'null' or h == 'none':
            return t
        if h == 'poly':
            s = 0
            for k, v in t[1]:
                m = v
                for f in k:
                    m *= num(ev(f))
                s += m
            return S(s)
        if h == 'not':
            return 0 if num(ev(t[1])) else 1
        if h == 'eq':
            a, b = ev(t[1]), ev(t[2])
            if isinstance(a, int) != isinstance(b, int):
                a, b = num(a), num(b)
            return 1 if a == b else 0
        if h == 'lt':
            a, b = num(ev(t[2])), num(ev(t[3]))
            if t[1] == 'u':
                a, b = a % M64, b % M64
            return 1 if a < b else 0
        if h == 'and':
            return 1 if num(ev(t[1])) and num(ev(t[2])) else 0
        if h == 'or':
            return 1 if num(ev(t[1])) or num(ev(t[2])) else 0
        if h == 'ite':
            return ev(t[2]) if num(ev(t[1])) else ev(t[3])
        if h == 'empty':
            return 1 if ev(('size', t[1])) == 0 else 0
        if h == 'size':
            return _h(seed, ('size', ev(t[1]))) % 4
        if h == 'trunc':
            w, sg = INT_T.get(t[1], (64, True))
            x = num(ev(t[2])) % (1 << w)
            return x - (1 << w) if sg and x >= 1 << (w - 1) else x
        if h == 'op' and t[1] in ('&', '|', '^', '/s', '%s', '/u', '%u', '<<', '>>s', '>>u'):
            try:
                return teval(('op', t[1], ('x',), ('y',)), {('x',): num(ev(t[2])), ('y',): num(ev(t[3]))}, 64)
            except Undef:
                return ('undef-op',)
        if h == 'cat':
            return ('cat',) + tuple(ev(x) for x in t[1])
        if h in BOOLHEADS or h == 'typed' and t[1] == 'bool':
            return _h(seed, (h,) + tuple(ev(x) for x in t[1:])) & 1
        if h in ('sym',) or len(t) == 1:
            return _h(seed, t)
        # uninterpreted constructor / function
        return _tok(seed, (h,) + tuple(ev(x) if isinstance(x, tuple) else x for x in t[1:]))
    return ev(t)


def _tok(seed, key):
    if key[0] in ('rec', 'vec', 'some', 'var', 'alt', 'tuple', 'new', 'addr', 'push', 'mset', 'mdel'):
        return key
    return _h(seed, key)


def requal(a, b, forced=None, n=60):
    """True: equal in every interpretation tried; False: definitely different; None: cannot tell."""
    if a == b:
        return True
    try:
        for i in range(n):
            memo = {}
            if rval(a, i, forced, memo) != rval(b, i, forced, memo):
                return False
        return True
    except Unknown:
        return None
    except Exception:
        return None
