"""Rules over the instruction classes: the composed architectural effect against the ISA manual (docs/t86-isa.md)."""
import itertools
from terms import *
from isa import *
from interp import *
from engine import _tclean
from load import AnalysisError

PCV, SPV, BPV, FLV = -1, -2, -3, -4          # special register numbers as 64-bit words
PTYPE = {NS + 'Register': ['Reg'], 'long': ['Imm'], 'unsigned long': ['Imm'], 'double': ['FImm'], NS + 'FloatRegister': ['FReg'], NS + 'RegisterOffset': ['RegImm']}
for _k, _v in KINDS.items():
    if _k.startswith('Mem'):
        PTYPE[NS + 'Memory::' + _v] = [_k]

BIN = ['MOD', 'ADD', 'SUB', 'MUL', 'DIV', 'IMUL', 'IDIV', 'AND', 'OR', 'XOR', 'LSH', 'RSH']
UN = ['INC', 'DEC', 'NEG', 'NOT']
FBIN = {'FADD': '+', 'FSUB': '-', 'FMUL': '*', 'FDIV': '/'}
COND = {
    'JZ': lambda S, Z, C, O: Z, 'JE': lambda S, Z, C, O: Z, 'JNZ': lambda S, Z, C, O: not Z, 'JNE': lambda S, Z, C, O: not Z,
    'JG': lambda S, Z, C, O: not Z and S == O, 'JGE': lambda S, Z, C, O: S == O, 'JL': lambda S, Z, C, O: S != O, 'JLE': lambda S, Z, C, O: Z or S != O,
    'JA': lambda S, Z, C, O: not C and not Z, 'JAE': lambda S, Z, C, O: not C, 'JB': lambda S, Z, C, O: C, 'JBE': lambda S, Z, C, O: C or Z,
    'JO': lambda S, Z, C, O: O, 'JNO': lambda S, Z, C, O: not O, 'JS': lambda S, Z, C, O: S, 'JNS': lambda S, Z, C, O: not S,
}
SRC = ['Imm', 'Reg', 'RegImm', 'MemImm', 'MemReg', 'MemRegImm']
MEMS = [k for k in KINDS if k.startswith('Mem')]
# operand kinds an `Operand` parameter accepts, by class (documentation tables)
OPKINDS = {c: SRC for c in BIN}
OPKINDS.update({c: ['FReg', 'FImm'] for c in FBIN})
OPKINDS.update({c: ['Imm', 'Reg', 'MemImm', 'MemReg', 'MemRegImm'] for c in COND})
OPKINDS.update({'CMP': ['Imm', 'Reg', 'MemImm', 'MemReg', 'MemRegImm'], 'FCMP': ['FReg', 'FImm'], 'JMP': ['Imm', 'Reg'], 'CALL': ['Imm', 'Reg'], 'PUSH': ['Imm', 'Reg'], 'FPUSH': ['FReg', 'FImm'],
                'LEA': ['MemRegImm', 'MemRegReg', 'MemRegScaled', 'MemRegImmReg', 'MemRegRegScaled', 'MemRegImmRegScaled']})
MEM_DST = [k for k in MEMS]


class U(Exception):
    """unspecified by the documentation"""


def alu(op, x, y, w):
    """(value, S, Z, C, O) with None for a flag the documentation leaves open."""
    M = 1 << w
    S = lambda v: (v % M) - M if (v % M) >= M // 2 else v % M
    ux, uy = x % M, y % M
    C = O = False
    if op in ('ADD', 'INC'):
        y = 1 if op == 'INC' else y
        uy = y % M
        r = x + y
        C, O = ux + uy >= M, S(r) != r
    elif op in ('SUB', 'DEC', 'CMP'):
        y = 1 if op == 'DEC' else y
        uy = y % M
        r = x - y
        C, O = ux < uy, S(r) != r
    elif op == 'MUL':
        r = ux * uy
        C = r >= M
    elif op == 'IMUL':
        r = x * y
        O = S(r) != r
    elif op == 'DIV':
        if uy == 0:
            raise U
        r = ux // uy
    elif op in ('IDIV', 'MOD'):
        if y == 0 or (x == -(M // 2) and y == -1):
            raise U
        r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        if op == 'MOD':
            r = x - r * y
    elif op == 'AND':
        r = x & y
    elif op == 'OR':
        r = x | y
    elif op == 'XOR':
        r = x ^ y
    elif op == 'NEG':
        r = -x
    elif op == 'NOT':
        r = ~x
    elif op in ('LSH', 'RSH'):
        if not 0 <= y < w:
            raise U
        r = x << y if op == 'LSH' else x >> y
        C = None if y == 0 else bool((ux >> (w - y)) & 1) if op == 'LSH' else bool((x >> (y - 1)) & 1)
    else:
        raise KeyError(op)
    r = S(r)
    return r, r < 0, r == 0, C, O


def pack(S, Z, C, O):
    return (1 if S else 0) | (2 if Z else 0) | (4 if C else 0) | (8 if O else 0)


class Arg:
    def __init__(self, kind, m, tag):
        self.kind, self.m, self.tag = kind, m, tag
        self.ix = m[1] if m[0] in ('REG', 'FREG') else None
        self.isf = kind in ('FReg', 'FImm')
        self.mem = m[0] == 'MEM'


def fl(v):
    return v if isinstance(v, float) else struct.unpack('<d', struct.pack('<q', v))[0]


def bits(v):
    return struct.unpack('<q', struct.pack('<d', v))[0] if isinstance(v, float) else v


class Exp:
    def __init__(self):
        self.regs, self.fregs, self.mem, self.jump, self.ctl, self.io, self.flagmask = {}, {}, {}, None, [], [], 15


def expected(cls, args, J):
    """What the manual says instruction cls does, evaluated under the valuation J."""
    e = Exp()
    v = [J.ev(a.m) if a.m[0] != 'stream' else None for a in args]
    w = J.w
    ixv = lambda a: J.S(J.num(a.ix))
    if cls in BIN:
        d, x, y = (args[0], v[0], v[1]) if len(args) == 2 else (args[0], v[1], v[2])
        r, S, Z, C, O = alu(cls, x, y, w)
        if C is None:
            e.flagmask = 11
        e.regs = {ixv(d): r, FLV: pack(S, Z, C, O)}
    elif cls in UN:
        r, S, Z, C, O = alu(cls, v[0], 0, w)
        e.regs = {ixv(args[0]): r, FLV: pack(S, Z, C, O)}
    elif cls == 'CMP':
        r, S, Z, C, O = alu('CMP', v[0], v[1], w)
        e.regs = {FLV: pack(S, Z, C, O)}
    elif cls in FBIN or cls == 'FCMP':
        r = fop(FBIN.get(cls, '-'), v[0], v[1])
        e.regs = {FLV: pack(r < 0, r == 0, False, math.isinf(r))}
        if cls != 'FCMP':
            e.fregs = {ixv(args[0]): r}
    elif cls in COND:
        f = J.reg(FLV)
        t = bool(COND[cls](bool(f & 1), bool(f & 2), bool(f & 4), bool(f & 8)))
        e.jump = t
        if t:
            e.regs = {PCV: v[0]}
    elif cls == 'JMP':
        e.jump = True
        e.regs = {PCV: v[0]}
    elif cls == 'LOOP':
        r, S, Z, C, O = alu('DEC', v[0], 1, w)
        e.jump = r != 0
        e.regs = {ixv(args[0]): r, FLV: pack(S, Z, C, O)}
        if r != 0:
            e.regs[PCV] = v[1]
    elif cls == 'CALL':
        sp = J.S(J.reg(SPV) - 1)
        e.jump = True
        e.regs = {PCV: v[0], SPV: sp}
        e.mem = {sp: J.reg(PCV)}
    elif cls == 'RET':
        sp = J.reg(SPV)
        e.jump = True
        e.regs = {PCV: J.load(sp), SPV: J.S(sp + 1)}
    elif cls in ('PUSH', 'FPUSH'):
        sp = J.S(J.reg(SPV) - 1)
        e.regs = {SPV: sp}
        e.mem = {sp: bits(v[0])}
    elif cls in ('POP', 'FPOP'):
        sp = J.reg(SPV)
        if cls == 'POP':
            if ixv(args[0]) == SPV:
                raise U
            e.regs = {ixv(args[0]): J.load(sp)}
        else:
            e.fregs = {ixv(args[0]): fl(J.load(sp))}
        e.regs[SPV] = J.S(sp + 1)
    elif cls == 'MOV':
        d, s = args[0], v[1]
        if d.mem:
            e.mem = {J.S(J.num(d.m[1])): bits(s)}
        elif d.isf:
            e.fregs = {ixv(d): fl(s)}
        else:
            e.regs = {ixv(d): bits(s)}
    elif cls == 'LEA':
        e.regs = {ixv(args[0]): J.S(J.num(args[1].m[1]))}
    elif cls == 'EXT':
        e.fregs = {ixv(args[0]): float(v[1])}
    elif cls == 'NRW':
        if math.isnan(v[1]) or abs(v[1]) >= 2.0 ** 63:
            raise U
        e.regs = {ixv(args[0]): int(v[1])}
    elif cls == 'CLF':
        e.regs = {FLV: 0}
    elif cls == 'NOP':
        pass
    elif cls == 'HALT':
        e.ctl = ['unrollSpeculation', 'halt']
    elif cls == 'BKPT':
        e.ctl = ['unrollSpeculation', ('interrupt', 3)]
    elif cls == 'BREAK':
        e.ctl = ['unrollSpeculation', 'doBreak']
    elif cls == 'DBG':
        e.ctl = ['unrollSpeculation', 'callback']
    elif cls == 'PUTCHAR':
        c = v[0] % 256
        e.io = [('char', c)]
    elif cls == 'PUTNUM':
        e.io = [('num', v[0]), ('str', '\n')]
    elif cls == 'GETCHAR':
        e.io = [('in',)]
        e.regs = {ixv(args[0]): ('in',)}
    else:
        raise KeyError(cls)
    return e


class Mismatch(Exception):
    pass


def iotok(J, t):
    if t[0] == 'trunc' and t[1] in ('char', 'signed char', 'unsigned char'):
        return ('char', J.num(t[2]) % 256)
    if t[0] == 'chr':
        return ('char', J.num(t[1]) % 256)
    if t[0] == 'str':
        return t
    if t[0] in ('ret', 'call'):
        raise Undef(t)
    return ('num', J.num(t))


def compare(S, cls, args, paths, J):
    """Compare the composed effect with the manual under valuation J. Raises Mismatch; returns True/None."""
    try:
        e = expected(cls, args, J)
    except U:
        return True
    verdict = None
    for A in paths:
        sure, applies = True, True
        for a, val in A['lits'].items():
            try:
                if J.b(a) != val:
                    applies = False
                    break
            except Undef as u:
                if 'div' in str(u) or 'shift' in str(u):
                    pass
                sure = False
        if not applies:
            continue
        if A['out'][0] != 'return':
            if sure:
                raise Mismatch('does not complete: %s' % (A['out'][:2],), A)
            continue
        r = match_path(cls, A, e, J)
        if r is None:
            return None
        verdict = True
    return verdict


def match_path(cls, A, e, J):
    got_r, got_f, got_m = {}, {}, {}
    try:
        for store, lst in ((got_r, A['regs']), (got_f, A['fregs'])):
            for ix, v, ph, rat, wh in lst:
                k = J.S(J.num(ix))
                if cls == 'GETCHAR' and v[0] == 'ret' and v[1] == 'stream.in':
                    store[k] = ('in',)
                else:
                    store[k] = J.ev(v)
        ids = [c[0] for c in A['committed']]
        for i, (ad, v) in A['writes'].items():
            if ad is None or v is None:
                raise Mismatch('memory write without %s' % ('address' if ad is None else 'value'), A)
            if i not in ids:
                raise Mismatch('memory write never committed at retirement', A)
            if ids.count(i) > 1:
                raise Mismatch('memory write committed twice', A)
            got_m[J.S(J.num(ad))] = bits(J.ev(v))
        for i in ids:
            if i not in A['writes']:
                raise Mismatch('commits a memory write that was never prepared', A)
    except Undef as u:
        if str(u) in ('div0', 'divovf', 'shift'):
            raise Mismatch('the host operation is undefined here (%s)' % u, A)
        if u.args and isinstance(u.args[0], tuple) and any(x[0] == 'oob' for x in subterms(u.args[0]) if x):
            raise Mismatch('reads an operand beyond the operand list', A)
        return None
    if FLV in e.regs and e.flagmask != 15 and FLV in got_r:
        got_r[FLV] = got_r[FLV] & e.flagmask
        e.regs[FLV] &= e.flagmask
    name = {PCV: 'PC', SPV: 'SP', BPV: 'BP', FLV: 'FLAGS'}
    for nm, exp, got, cur in (('R', e.regs, got_r, J.reg), ('F', e.fregs, got_f, J.freg), ('mem', e.mem, got_m, J.load)):
        for k in sorted(set(exp) | set(got), key=str):
            x = exp.get(k, None)
            y = got.get(k, None)
            label = '%s[%s]' % (nm, name.get(k, k)) if nm != 'mem' else 'mem[%s]' % k
            if x is None:
                if same(y, cur(k)):
                    continue
                raise Mismatch('%s changed to %s but the instruction does not write it' % (label, y), A)
            if y is None:
                if same(x, cur(k)) and not (nm == 'R' and k == FLV):
                    continue
                raise Mismatch('%s not written, expected %s' % (label, x), A)
            if not same(x, y):
                raise Mismatch('%s = %s, expected %s' % (label, y, x), A)
    # control
    jumps = [c for c in A['ctl'] if c[0] == 'jump']
    if e.jump is None and jumps:
        raise Mismatch('reports a jump but is not a jump', A)
    if e.jump is not None:
        if len(jumps) != 1:
            raise Mismatch('reports %d jump outcomes at retirement, expected 1' % len(jumps), A)
        if jumps[0][2] != 'retire':
            raise Mismatch('resolves the jump before retirement', A)
        try:
            t = J.b(jumps[0][1][-1])
        except Undef:
            return None
        if t != e.jump:
            raise Mismatch('jump outcome reported as %s, expected %s' % ('taken' if t else 'not taken', 'taken' if e.jump else 'not taken'), A)
    ctl = [c for c in A['ctl'] if c[0] not in ('jump', 'stream.in', 'registerReady', 'flush')]
    want = list(e.ctl)
    if len(ctl) != len(want):
        raise Mismatch('control effects %s, expected %s' % ([c[0] for c in ctl], want), A)
    for c, x in zip(ctl, want):
        nm = x if isinstance(x, str) else x[0]
        if c[0] != nm:
            raise Mismatch('control effects %s, expected %s' % ([c[0] for c in ctl], want), A)
        if c[2] != 'retire':
            raise Mismatch('%s happens before retirement' % nm, A)
        if not isinstance(x, str):
            try:
                if J.num(c[1][0]) != x[1]:
                    raise Mismatch('%s(%s), expected %s' % (nm, J.num(c[1][0]), x[1]), A)
            except Undef:
                return None
    io = []
    for ev, ph in A['io']:
        if ev.kind != 'out':
            continue
        if ph != 'retire':
            raise Mismatch('output happens before retirement', A)
        try:
            io.append(iotok(J, ev.args[0]))
        except Undef:
            return None
    ins = [c for c in A['ctl'] if c[0] == 'stream.in']
    if any(c[2] != 'retire' for c in ins):
        raise Mismatch('input is consumed before retirement', A)
    io += [('in',) for c in ins]
    io = [x for x in io if x != ('str', '')]
    if e.io and e.io[-1] == ('str', '\n') and len(io) == 2 and io[1] == ('char', 10):
        io[1] = ('str', '\n')
    if io != e.io:
        raise Mismatch('I/O %s, expected %s' % (io, e.io), A)
    return True


# ------------------------------------------------------------------------------------------------
def ctor_cases(ctx, S, cls):
    """All (label, instruction value, args) for the constructors of cls found in the source."""
    P = ctx.P
    q = NS + cls
    if q not in P.classes:
        raise AnalysisError('anchor vanished: instruction class ' + cls)
    cs = [f for f in P.fns(q + '::' + cls) if f.get('kind') == 'ctor' and 'body' in f]
    cs = [f for f in cs if not (len(f['params']) == 1 and _tclean(f['params'][0]['t']).rstrip('& ').endswith('::' + cls))]
    seen = False
    if not cs:
        cs = [None]
    for f in cs:
        ptypes = [_tclean(p['t']) for p in f['params']] if f else []
        choices = []
        ok = True
        for n, t in enumerate(ptypes):
            if t == NS + 'Operand':
                ks = OPKINDS.get(cls)
                if cls == 'LOOP':
                    ks = ['Reg'] if n == 0 else ['Imm', 'Reg']
                if cls == 'MOV':
                    ks = ['Reg', 'FReg'] + MEMS if n == 0 else ['Imm', 'Reg', 'RegImm', 'FReg', 'FImm'] + MEMS
                if ks is None:
                    ok = False
                    break
                choices.append(['Op:' + k for k in ks])
            elif t in PTYPE:
                choices.append(PTYPE[t])
            elif 'stream' in t or 'function' in t:
                choices.append(['opaque'])
            else:
                ok = False
                break
        if not ok:
            ctx.undecided('%s(%s)' % (cls, ', '.join(ptypes)), '', 'constructor parameter not understood')
            continue
        for ks in itertools.product(*choices):
            if cls == 'MOV':
                k0, k1 = ks[0].replace('Op:', ''), ks[1].replace('Op:', '')
                if k0.startswith('Mem') and not (k1 in ('Imm', 'Reg', 'FReg')):
                    continue
                if k0 == 'Reg' and k1 == 'FImm':
                    continue
                if k0 == 'FReg' and k1 not in ('FImm', 'FReg', 'Reg', 'MemImm', 'MemReg'):
                    continue
            vals, args = [], []
            for n, k in enumerate(ks):
                if k == 'opaque':
                    vals.append(('sym', 'stream%d' % n))
                    args.append(Arg(k, ('stream',), str(n)))
                elif k.startswith('Op:'):
                    o, m = S.operand(k[3:], str(n))
                    vals.append(o)
                    args.append(Arg(k[3:], m, str(n)))
                else:
                    t, v, m = S.raw(k, str(n))
                    vals.append(v)
                    args.append(Arg(k, m, str(n)))
            label = '%s(%s)' % (cls, ', '.join(ks))
            ins = S.mk(q, vals, ptypes)
            yield label, ins, args, ptypes


def valuations(cls, args, n=60):
    """Interpretations: register numbers small (so they alias) or special, integers from the corner grid."""
    for s in range(n):
        J = Interp(seed=s * 7919 + 13)
        for i, a in enumerate(args):
            for p in 'ab':
                k = ('sym', p + a.tag)
                J.env[k] = J.rng.choice([0, 1, 2, 3]) if J.rng.random() < .85 or cls in ('LOOP',) else J.rng.choice([SPV, BPV]) if a.kind not in ('FReg',) else 4
            J.env[('sym', 'i' + a.tag)] = J.pick()
            J.env[('sym', 'j' + a.tag)] = J.rng.choice([1, 2, 4, 8, 3, -1, J.pick()])
            J.env[('sym', 'f' + a.tag)] = J.fpick()
        if cls in COND:
            J.regs[FLV] = s % 16
        if cls == 'LOOP' and s % 3 == 0 and args[0].ix:
            J.regs[J.num(args[0].ix)] = [1, 0, 2][s // 3 % 3]
        if cls in ('LSH', 'RSH') and s % 4 != 3:
            y = args[-1].m
            J.env.update(force(y, J, J.rng.randrange(0, 64)))
        yield J


def force(m, J, v):
    """Make meaning term m evaluate to v by choosing one of its free atoms."""
    if m[0] == 'sym':
        return {m: v}
    if m[0] == 'REG':
        J.regs[J.num(m[1])] = v
        return {}
    if m[0] == 'MEM':
        J.mem[J.S(J.num(m[1]))] = v
        return {}
    return {}


def check_class(ctx, S, cls, n=60, small=False):
    cases = 0
    for label, ins, args, ptypes in ctor_cases(ctx, S, cls):
        cases += 1
        try:
            paths = S.arch(S.effects(ins))
        except AnalysisError:
            raise
        except Exception as ex:
            ctx.undecided(label, '', '%s: %s' % (type(ex).__name__, ex))
            continue
        where = ctx.P.where(ctx.P.lookup_method(NS + cls, 'execute', 1)) if ctx.P.lookup_method(NS + cls, 'execute', 1) else ''
        verdict, why = None, ''
        tried = 0
        for J in valuations(cls, args, n):
            try:
                r = compare(S, cls, args, paths, J)
            except Mismatch as m:
                desc = ', '.join('%s' % show(k) + '=' + str(v) for k, v in sorted(J.env.items(), key=str) if k[0] == 'sym' and any(k[1][1:] == a.tag for a in args))
                ctx.bad(label, where, '%s (for %s; registers %s, memory %s)' % (m.args[0], desc, dict(list(J.regs.items())[:6]), dict(list(J.mem.items())[:4])))
                verdict = False
                break
            except Undef as u:
                why = 'term without valuation: %s' % (str(u)[:160],)
                continue
            if r:
                tried += 1
        if verdict is None:
            if tried >= n // 4:
                ctx.ok('%s agrees with the manual on %d valuations' % (label, tried), where)
            else:
                ctx.undecided(label, where, why or 'no valuation decided')
                continue
        if small and verdict is None and [a.kind for a in args] in (['Reg', 'Reg'], ['Reg']):
            ctx.guard(label + ' at width 5', exhaustive, ctx, S, cls, label, args, paths, where)
    return cases


def exhaustive(ctx, S, cls, label, args, paths, where, w=5):
    """All operand pairs at word width w (limit constants scaled)."""
    dec = 0
    rng = range(-(1 << w - 1), 1 << w - 1)
    for x in rng:
        for y in (rng if len(args) == 2 else [0]):
            J = Interp(seed=1, w=w)
            J.env = {('sym', 'a' + args[0].tag): 0}
            J.regs[0] = x
            if len(args) == 2:
                J.env[('sym', 'a' + args[1].tag)] = 1
                J.regs[1] = y
            try:
                r = compare(S, cls, args, paths, J)
            except Undef:
                r = None
            except Mismatch as m:
                ctx.bad(label + ' (all words)', where, '%s for operands %d, %d at word width %d' % (m.args[0], x, y, w))
                return
            if r:
                dec += 1
    if dec >= (1 << w) // 2:
        ctx.ok('%s: all %d operand pairs at width %d' % (label, dec, w), where)
    else:
        ctx.undecided(label + ' (all words)', where, 'width-independent evaluation not possible')


def isa_of(ctx):
    if not hasattr(ctx.P, '_isa'):
        ctx.P._isa = Isa(ctx.P)
    return ctx.P._isa


def group(ctx, classes, name, text, n=60, small=False):
    ctx.rule(name, text)
    S = isa_of(ctx)
    if ctx.tier == 'thorough':
        n *= 6
    for c in classes:
        ctx.guard(c, check_class, ctx, S, c, n, small)
    ctx.seen(S.E)
    ctx.floor(name, len(classes))


def c01(ctx):
    group(ctx, list(COND), 'cond-jump', 'every conditional jump, with every target form, goes to its target exactly when the documented flag predicate holds, and reports the same outcome at retirement', n=96)


def c02(ctx):
    group(ctx, BIN + UN + ['CMP'], 'alu', 'value and flags of every integer ALU instruction and operand form', n=60, small=True)
    group(ctx, list(FBIN) + ['FCMP'], 'fpu', 'value and flags of every float instruction', n=80)


def c03(ctx):
    group(ctx, ['PUSH', 'FPUSH', 'POP', 'FPOP', 'CALL', 'RET', 'JMP', 'LOOP'], 'stack-control', 'stack and unconditional control instructions', n=60)
    group(ctx, ['EXT', 'NRW', 'CLF', 'NOP', 'HALT', 'BKPT', 'BREAK', 'DBG', 'PUTCHAR', 'PUTNUM', 'GETCHAR'], 'misc', 'conversion, control and I/O instructions', n=40)


def c05(ctx):
    group(ctx, ['MOV'], 'mov', 'MOV with every source and destination form', n=30)
    group(ctx, ['LEA'], 'lea', 'LEA with every address form', n=30)


# ------------------------------------------------------------------------------------------------ C04
ALL = BIN + UN + ['CMP', 'FCMP'] + list(FBIN) + list(COND) + ['PUSH', 'FPUSH', 'POP', 'FPOP', 'CALL', 'RET', 'JMP', 'LOOP', 'EXT', 'NRW', 'CLF', 'NOP', 'HALT', 'BKPT', 'BREAK', 'DBG',
                                                             'PUTCHAR', 'PUTNUM', 'GETCHAR', 'MOV', 'LEA']


def reg_name(ix):
    c = cval(ix)
    return {U64 - 1: 'PC', U64 - 2: 'SP', U64 - 3: 'BP', U64 - 4: 'FLAGS'}.get(c, show(ix))


def contract_case(ctx, S, cls, label, ins, args):
    ef = S.effects(ins)
    prods = ef['products']
    where = ctx.P.where(ctx.P.lookup_method(NS + cls, 'produces', 0))
    pr = {('R', x[1]) for x in prods if x[0] == 'R'} | {('F', x[1]) for x in prods if x[0] == 'F'}
    if any(x[0] == '?' for x in prods):
        ctx.undecided(label, where, 'product kind not understood')
        return
    n = 0
    for A in S.arch(ef):
        if A['out'][0] != 'return':
            continue
        # a register number equal to PC is rejected by validation before execution
        if any(a[0] == 'eq' and v and PC in (a[1], a[2]) and any(x[0] == 'sym' for x in (a[1], a[2])) for a, v in A['lits'].items()):
            continue
        n += 1
        sets = [('R', r[0], r) for r in A['regs']] + [('F', r[0], r) for r in A['fregs']]
        for k, ix, r in sets:
            if (k, ix) not in pr:
                ctx.bad(label, where, '%s is written (%s:%s) but not declared as a product: the write lands in a register the instruction does not own' % (reg_name(ix), r[4][0], r[4][1]))
                return
            if r[3] is not None and not str(r[3]).endswith("'writeRat_')"):
                f = r[3]
                if f[0] == 'fld' and f[2] == 'readRat_':
                    ctx.bad(label, where, '%s is written through the read mapping' % reg_name(ix))
                    return
        for k, ix in sorted(pr, key=str):
            c = len([1 for kk, i, _ in sets if (kk, i) == (k, ix)])
            if ix == PC and k == 'R':
                if c > 1:
                    ctx.bad(label, where, 'the program counter is written %d times on one path' % c)
                    return
                continue
            if c == 0:
                ctx.bad(label, where, '%s is declared as a product but a path never writes it: every reader waits forever' % reg_name(ix))
                return
            if c > 1:
                ctx.bad(label, where, '%s is written %d times on one path' % (reg_name(ix), c))
                return
        nm = len([1 for x in prods if x[0] == 'M'])
        if len(A['committed']) != nm:
            ctx.bad(label, where, '%d memory products but %d commits' % (nm, len(A['committed'])))
            return
        for i, (ad, v) in A['writes'].items():
            if ad is None or v is None:
                ctx.bad(label, where, 'a declared memory write gets no %s' % ('address' if ad is None else 'value'))
                return
        if len(A['writes']) != nm:
            ctx.bad(label, where, '%d memory products but %d are filled in' % (nm, len(A['writes'])))
            return
        for i, ph, wh in A['committed']:
            if ph != 'retire':
                ctx.bad(label, where, 'memory is written before retirement')
                return
        for t in [r[1] for _, _, r in sets] + [x for p in A['writes'].values() for x in p if x is not None]:
            if any(x[0] == 'oob' for x in subterms(t)):
                ctx.bad(label, where, 'reads an operand beyond the operand list')
                return
    if n == 0:
        ctx.undecided(label, where, 'no completing path')
    else:
        ctx.ok('%s: %d products, %d paths' % (label, len(prods), n), where)


def contract_class(ctx, S, cls):
    for label, ins, args, pt in ctor_cases(ctx, S, cls):
        ctx.guard(label, contract_case, ctx, S, cls, label, ins, args)


def c04(ctx):
    ctx.rule('product-contract', 'on every path each declared product is written exactly once and nothing undeclared is written; memory writes are addressed, valued and committed once at retirement')
    S = isa_of(ctx)
    for c in ALL:
        ctx.guard(c, contract_class, ctx, S, c)
    known = {NS + c for c in ALL}
    for c in sorted(ctx.P.all_subs(NS + 'Instruction')):
        k = ctx.P.cls(c)
        if c not in known and not k.get('abstract') and ctx.P.lookup_method(c, 'execute', 1) and ctx.P.lookup_method(c, 'type', 0) and ctx.P.lookup_method(c, 'type', 0)['q'].startswith(c + '::'):
            ctx.guard(c, contract_class, ctx, S, c[len(NS):])
    ctx.seen(S.E)
    ctx.floor('product-contract', len(ALL))
