"""Valuation of canonical terms over machine words and IEEE doubles.

A term describes what a piece of source computes as a function of register, memory and immediate atoms. `Interp`
gives the atoms values and folds the term; two terms (or a term and a written specification) are compared over a
grid of valuations (corner values at width 64, exhaustively at a small width)."""
import math, random, struct
from terms import *

CORNER = [0, 1, -1, 2, -2, 3, 5, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 100, 255, -128, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32,
          (1 << 53) + 1, (1 << 62), -(1 << 62), (1 << 62) + 1, (1 << 63) - 1, (1 << 63) - 2, -(1 << 63), -(1 << 63) + 1, 0x123456789abcdef0 - (1 << 63), 3037000500, -3037000500]
FCORNER = [0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 3.75, 1e308, -1e308, 1e-308, 123456789.125, -7.0, float('inf'), 2.0 ** 52 + 1]


class Interp:
    def __init__(self, seed=0, w=64, env=None):
        self.seed, self.w = seed, w
        self.M = 1 << w
        self.rng = random.Random(seed)
        self.env = dict(env or {})
        self.regs, self.fregs, self.mem = {}, {}, {}
        self.memo = {}

    def S(self, x):
        x %= self.M
        return x - self.M if x >= self.M // 2 else x

    def pick(self):
        return self.S(self.rng.choice(CORNER)) if self.rng.random() < .7 else self.S(self.rng.getrandbits(64))

    def fpick(self):
        return self.rng.choice(FCORNER) if self.rng.random() < .6 else self.rng.uniform(-1e6, 1e6)

    def reg(self, ix):
        return self.regs.setdefault(ix, self.pick())

    def freg(self, ix):
        return self.fregs.setdefault(ix, self.fpick())

    def load(self, a):
        return self.mem.setdefault(self.S(a), self.pick())

    def const(self, c):
        if self.w == 64:
            return c
        for base, v in (((1 << 63) - 1, self.M // 2 - 1), ((1 << 63), self.M // 2), (-(1 << 63), -(self.M // 2)), ((1 << 64) - 1, -1), (-(1 << 64), 0), (1 << 64, 0)):
            if abs(c - base) <= 4:
                return v + (c - base)
        if c in (64, 63, -63, -64):
            return {64: self.w, 63: self.w - 1, -63: 1 - self.w, -64: -self.w}[c]
        if abs(c) >= self.M // 2:
            raise Undef('constant %d at width %d' % (c, self.w))
        return c

    def b(self, t):
        v = self.ev(t)
        if isinstance(v, float):
            return v != 0
        return bool(v)

    def ev(self, t):
        m = self.memo.get(t)
        if m is None:
            m = self.memo[t] = self.ev0(t)
        return m

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, int):
            raise Undef(t)
        return v

    def f(self, t):
        v = self.ev(t)
        if not isinstance(v, float):
            raise Undef(t)
        return v

    def ev0(self, t):
        if t in self.env:
            return self.env[t]
        h = t[0]
        S, M, w = self.S, self.M, self.w
        if h == 'int':
            return S(self.const(t[1]))
        if h == 'bool':
            return 1 if t[1] else 0
        if h == 'enum':
            return t[2]
        if h == 'flt':
            return float(t[1])
        if h == 'REG':
            return self.reg(self.num(t[1]))
        if h == 'FREG':
            return self.freg(self.num(t[1]))
        if h == 'MEM':
            return self.load(self.num(t[1]))
        if h == 'poly':
            s = 0
            for k, v in t[1]:
                m = self.const(v) if k == () else v
                for fct in k:
                    m *= self.num(fct)
                s += m
            return S(s)
        if h == 'not':
            return 0 if self.b(t[1]) else 1
        if h == 'and':
            return 1 if self.b(t[1]) and self.b(t[2]) else 0
        if h == 'or':
            return 1 if self.b(t[1]) or self.b(t[2]) else 0
        if h == 'ite':
            return self.ev(t[2]) if self.b(t[1]) else self.ev(t[3])
        if h == 'typed':
            return self.ev(t[2])
        if h == 'eq':
            a, b = self.ev(t[1]), self.ev(t[2])
            if isinstance(a, float) or isinstance(b, float):
                return 1 if a == b else 0
            return 1 if S(a) == S(b) else 0
        if h == 'lt':
            a, b = self.ev(t[2]), self.ev(t[3])
            if isinstance(a, float) or isinstance(b, float):
                return 1 if a < b else 0
            if t[1] == 'u':
                return 1 if a % M < b % M else 0
            return 1 if S(a) < S(b) else 0
        if h == 'trunc':
            if w != 64:
                raise Undef(t)
            n, sg = INT_T.get(t[1], (64, True))
            x = self.num(t[2]) % (1 << n)
            return x - (1 << n) if sg and x >= 1 << (n - 1) else x
        if h == 'ovf':
            a, b = S(self.num(t[3])), S(self.num(t[4]))
            if t[2] == 'u':
                a, b = a % M, b % M
            r = {'+': a + b, '-': a - b, '*': a * b}[t[1]]
            return int(not (0 <= r < M)) if t[2] == 'u' else int(S(r) != r)
        if h == 'isinf':
            return 1 if math.isinf(self.f(t[1])) else 0
        if h == 'isnan':
            return 1 if math.isnan(self.f(t[1])) else 0
        if h == 'i2fs' or h == 'i2f':
            return float(S(self.num(t[1])))
        if h == 'i2fu':
            return float(self.num(t[1]) % M)
        if h == 'f2i':
            v = self.f(t[2])
            if math.isnan(v) or abs(v) >= 2 ** 63:
                raise Undef('float out of range')
            r = int(v)
            if t[1] not in ('i64', 'u64'):
                n, sg = INT_T.get(t[1], (64, True))
                lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if sg else (0, (1 << n) - 1)
                if not lo <= r <= hi:
                    raise Undef('float out of range of ' + t[1])
            return r
        if h == 'f2b':
            v = self.ev(t[1])
            return struct.unpack('<q', struct.pack('<d', v))[0] if isinstance(v, float) else v
        if h == 'b2f':
            v = self.ev(t[1])
            return v if isinstance(v, float) else struct.unpack('<d', struct.pack('<q', S(v)))[0]
        if h == 'fneg':
            return -self.f(t[1])
        if h == 'op':
            o = t[1]
            if o[0] == 'f':
                a, b = self.f(t[2]), self.f(t[3])
                return fop(o[1:], a, b)
            a, b = self.num(t[2]), self.num(t[3])
            return teval(('op', o, ('x',), ('y',)), {('x',): a, ('y',): b}, w)
        raise Undef(t)


def fop(o, a, b):
    try:
        if o == '+':
            return a + b
        if o == '-':
            return a - b
        if o == '*':
            return a * b
        if o == '/':
            if b == 0:
                if a == 0 or math.isnan(a):
                    return float('nan')
                return math.copysign(float('inf'), a) * math.copysign(1.0, b)
            return a / b
    except OverflowError:
        return math.copysign(float('inf'), a) * math.copysign(1.0, b)
    raise Undef(o)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack('<d', a) == struct.pack('<d', b) or math.isnan(a) and math.isnan(b)
    return type(a) == type(b) and a == b
