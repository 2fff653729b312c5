"""Composition of an instruction's architectural effect from operands()/requirement()/supply()/execute()/retire().

For a constructor of an instruction class and a choice of operand kinds, the instruction object is built in the
value domain, its operands are resolved the way the pipeline resolves them (register value / memory cell at the
computed address), and the resulting guarded effects on registers, flags, memory and control are returned as
terms over REG(index), FREG(index), MEM(address) and the immediates."""
from terms import *
from engine import *
from engine import _tclean
from load import AnalysisError

NS = 'tiny::t86::'
U64 = (1 << 64)
PC, SP, BP, FLAGS = I(U64 - 1), I(U64 - 2), I(U64 - 3), I(U64 - 4)

OPAQUE = ['Cpu::setRegister', 'Cpu::setFloatRegister', 'Cpu::setRegisterDebug', 'Cpu::specifyWriteAddress', 'Cpu::getWrite', 'MemoryWrite::setValue', 'Cpu::writeMemory',
          'Cpu::jump', 'Cpu::unrollSpeculation', 'Cpu::interrupt', 'Cpu::halt', 'Cpu::doBreak', 'Cpu::registerReady', 'Cpu::singleStepped',
          'Cpu::setMemory', 'Cpu::flushPipeline', 'Cpu::setText', 'Cpu::unsetTrapFlag', 'Cpu::setTrapFlag', 'Cpu::renameRegister']
PURE = ['RegisterAllocationTable::translate', 'Cpu::registerReady', 'Cpu::getWrite']

# operand kinds: name -> how an Operand of that kind is built from registers (a, b) and integers (i, j)
KINDS = {
    'Imm': None, 'FImm': None, 'Reg': None, 'FReg': None,
    'RegImm': 'RegisterOffset', 'RegReg': 'RegisterRegister', 'RegScaled': 'RegisterScaled', 'RegImmReg': 'RegisterOffsetRegister',
    'RegRegScaled': 'RegisterRegisterScaled', 'RegImmRegScaled': 'RegisterOffsetRegisterScaled',
    'MemImm': 'Immediate', 'MemReg': 'Register', 'MemRegImm': 'RegisterOffset', 'MemRegReg': 'RegisterRegister', 'MemRegScaled': 'RegisterScaled',
    'MemRegImmReg': 'RegisterOffsetRegister', 'MemRegRegScaled': 'RegisterRegisterScaled', 'MemRegImmRegScaled': 'RegisterOffsetRegisterScaled',
}


def REG(ix):
    return ('REG', ix)


def FREG(ix):
    return ('FREG', ix)


def MEM(a):
    return ('MEM', a)


def sx(n):
    return ('sym', n)


class Isa:
    def __init__(self, P, extra_opaque=(), extra_pure=()):
        self.P = P
        self.E = Engine(P, opaque=tuple(OPAQUE) + tuple(extra_opaque), pure=tuple(PURE) + tuple(extra_pure), max_paths=3000, max_depth=40)
        self.entry = ('obj', 'entry', NS + 'ReservationStation::Entry')
        self.entry_loc = ('sym', 'entry')

    # -- values ------------------------------------------------------------------------------------
    def mk(self, cls, args, ptypes=None):
        """Construct an object of repo class cls."""
        c = [f for f in self.P.fns(cls + '::' + cls.split('::')[-1]) if f.get('kind') == 'ctor' and len(f['params']) == len(args) and 'body' in f
             and not (len(args) == 1 and _tclean(f['params'][0]['t']) in (cls, cls + ' &&', cls + '&&'))]
        if ptypes:
            c = [f for f in c if all(_tclean(p['t']) == t for p, t in zip(f['params'], ptypes))] or []
        if not c and not args and cls in self.P.classes:
            r = self.E.default_rec(cls, St(), Frame(0, None, {'q': '<entry>', 'file': '?'}, ()))
            return r[0][1]
        if not c:
            raise AnalysisError('anchor vanished: constructor %s/%d %s' % (cls, len(args), ptypes or ''))
        for p in self.E.run(c[0], this=('tmp', 'ctor'), args=list(args)):
            if p.kind == 'return':
                return p.value
        raise AnalysisError('constructor %s does not return' % cls)

    def reg(self, ix):
        return self.mk(NS + 'Register', [ix])

    def freg(self, ix):
        return self.mk(NS + 'FloatRegister', [ix])

    def compound(self, kind, tag):
        """(value, effective integer value as a term) of the register expression inside an operand kind."""
        a, b, i, j = sx('a' + tag), sx('b' + tag), sx('i' + tag), sx('j' + tag)
        k = kind[3:] if kind.startswith('Mem') else kind
        m = lambda n, *x: self.mk(NS + n, list(x))
        ra, rb = self.reg(a), self.reg(b)
        if k == 'Imm':
            return i, i
        if k == 'Reg':
            return ra, REG(a)
        if k == 'RegImm':
            return m('RegisterOffset', ra, i), add(REG(a), i)
        if k == 'RegReg':
            return m('RegisterRegister', ra, rb), add(REG(a), REG(b))
        if k == 'RegScaled':
            return m('RegisterScaled', ra, j), mul(REG(a), j)
        if k == 'RegImmReg':
            return m('RegisterOffsetRegister', m('RegisterOffset', ra, i), rb), add(add(REG(a), i), REG(b))
        if k == 'RegRegScaled':
            return m('RegisterRegisterScaled', ra, m('RegisterScaled', rb, j)), add(REG(a), mul(REG(b), j))
        if k == 'RegImmRegScaled':
            return m('RegisterOffsetRegisterScaled', m('RegisterOffset', ra, i), m('RegisterScaled', rb, j)), add(add(REG(a), i), mul(REG(b), j))
        raise KeyError(kind)

    def raw(self, kind, tag):
        """(C++ type, value passed to a constructor, meaning) for operand kind."""
        if kind == 'FImm':
            return 'double', sx('f' + tag), sx('f' + tag)
        if kind == 'FReg':
            return NS + 'FloatRegister', self.freg(sx('a' + tag)), FREG(sx('a' + tag))
        v, m = self.compound(kind, tag)
        if kind == 'Imm':
            return 'long', v, m
        if not kind.startswith('Mem'):
            return NS + ('Register' if kind == 'Reg' else KINDS[kind]), v, m
        cls = NS + 'Memory::' + KINDS[kind]
        return cls, self.mk(cls, [v]), MEM(m)

    def operand(self, kind, tag):
        t, v, m = self.raw(kind, tag)
        o = self.mk(NS + 'Operand', [v], [t])
        return o, m

    # -- running methods -----------------------------------------------------------------------------
    def method(self, objval, name, args=(), cls=None, store=None, ptypes=None, loc=None, aborts=False):
        """Run a method on an object value; returns the non-aborting paths."""
        cls = cls or objval[1]
        f = self.P.lookup_method(cls, name, len(args)) if not ptypes else None
        if ptypes:
            c = [x for x in self.P.fns(cls + '::' + name) if [_tclean(p['t']) for p in x['params']] == list(ptypes) and not x.get('static')]
            f = c[0] if c else None
        if f is None or 'body' not in f:
            raise AnalysisError('anchor vanished: %s::%s' % (cls, name))
        st = St()
        loc = loc or ('tmp', 'self')
        st.store[loc] = objval
        for k, v in (store or {}).items():
            st.store[k] = v
        ps = [p for p in self.E.run(f, this=loc, args=list(args), st=st) if aborts or p.kind != 'abort']
        for p in ps:
            p.self_after = self.E.read(_S(p.store), loc)
        return ps

    def one(self, objval, name, args=(), **k):
        ps = self.method(objval, name, args, **k)
        if len(ps) != 1:
            raise ValueError('%s::%s has %d paths on a concrete value' % (objval[1], name, len(ps)))
        return ps[0]

    def resolve(self, op):
        """Fetch one operand the way the pipeline does; returns (resolved Operand value, list of requirements)."""
        reqs = []
        for _ in range(6):
            if self.one(op, 'isFetched').value == TRUE:
                return op, reqs
            p = self.one(op, 'requirement')
            if p.kind != 'return':
                return None, [('throw', p.out)]
            r = p.value
            if self.one(r, 'isRegisterRead').value == TRUE:
                ix = self.index(self.one(r, 'getRegisterRead').value)
                reqs.append(('R', ix))
                np = self.one(op, 'supply', [REG(ix)], ptypes=['long'])
            elif self.one(r, 'isFloatRegisterRead').value == TRUE:
                ix = self.index(self.one(r, 'getFloatRegisterRead').value)
                reqs.append(('F', ix))
                np = self.one(op, 'supply', [FREG(ix)], ptypes=['double'])
            else:
                a = self.one(r, 'getMemoryRead').value
                reqs.append(('M', a))
                np = self.one(op, 'supply', [MEM(a)], ptypes=['long'])
            if np.kind != 'return':
                return None, [('throw', np.out)]
            op = np.self_after
        return None, reqs

    def index(self, regval):
        return self.one(regval, 'index').value

    def value(self, op):
        """Integer value term of a resolved operand."""
        return self.one(op, 'getValue').value

    def entry_fields(self):
        """Locations behind entry.operands() and entry.memoryWriteIds()."""
        if not hasattr(self, '_ef'):
            r = {}
            for n in ('operands', 'memoryWriteIds'):
                f = self.P.fn(NS + 'ReservationStation::Entry::' + n)
                ps = self.E.run(f, this=self.entry_loc)
                if len(ps) != 1 or len(ps[0].out) < 3 or ps[0].out[2] is None:
                    raise AnalysisError('anchor changed: Entry::%s is no accessor' % n)
                r[n] = ps[0].out[2]
            self._ef = r
        return self._ef

    def run(self, ins, method, operands, ids):
        f = self.entry_fields()
        store = {f['operands']: ('vec', tuple(operands)), f['memoryWriteIds']: ('vec', tuple(ids))}
        return self.method(ins, method, [self.entry_loc], store=store, loc=('sym', 'ins'), aborts=True)

    def products(self, ins):
        p = self.one(ins, 'produces')
        if p.value[0] != 'vec':
            raise ValueError('produces() is not a list')
        out = []
        for pr in p.value[1]:
            if pr[0] == 'rec' and not pr[1].endswith('::Product'):
                pr = self.mk(NS + 'Product', [pr], [pr[1]])
            if self.one(pr, 'isRegister').value == TRUE:
                out.append(('R', self.index(self.one(pr, 'getRegister').value)))
            elif self.one(pr, 'isFloatRegister').value == TRUE:
                out.append(('F', self.index(self.one(pr, 'getFloatRegister').value)))
            elif self.one(pr, 'isMemoryImmediate').value == TRUE:
                out.append(('M', self.one(self.one(pr, 'getMemoryImmediate').value, 'index').value))
            elif self.one(pr, 'isMemoryRegister').value == TRUE:
                out.append(('M', None))
            else:
                out.append(('?', pr))
        return out

    def effects(self, ins):
        """Compose. Returns dict: reads (requirements), products, paths: list of (lits, effect list, outcome)."""
        p = self.one(ins, 'operands')
        if p.kind != 'return' or p.value[0] != 'vec':
            raise ValueError('operands() is not a list: %s' % (p.out,))
        ops, reqs = [], []
        for o in p.value[1]:
            if o[0] == 'rec' and not o[1].endswith('::Operand'):
                o = self.mk(NS + 'Operand', [o], [o[1]])
            r, rq = self.resolve(o)
            if r is None:
                raise ValueError('operand cannot be resolved: %s' % (rq,))
            ops.append(r)
            reqs.append(rq)
        prods = self.products(ins)
        ids = []
        addr = {}
        for n, (k, a) in enumerate(x for x in prods if x[0] == 'M'):
            i = ('sym', 'wid%d' % n)
            ids.append(i)
            if a is not None:
                addr[i] = a
        ef = self.entry_fields()
        out = []
        for q in self.run(ins, 'execute', ops, ids):
            # retire sees the operands as execute left them
            ops2 = self.E.read(_S(q.store), ef['operands'])
            st = St()
            f = self.P.lookup_method(ins[1], 'retire', 1)
            if f is None:
                raise AnalysisError('anchor vanished: %s::retire' % ins[1])
            loc = ('sym', 'ins')
            st.store[loc] = ins
            st.store[ef['operands']] = ops2
            st.store[ef['memoryWriteIds']] = ('vec', tuple(ids))
            st.lits = dict(q.lits)
            if q.kind != 'return':
                out.append((q.lits, list(q.events), [], q.out, addr))
                continue
            for r in self.E.run(f, this=loc, args=[self.entry_loc], st=st):
                out.append((r.lits, list(q.events), list(r.events), r.out, addr))
        return {'reads': reqs, 'products': prods, 'paths': out}

    def arch(self, ef):
        """Turn a composed effect list into architectural updates per path."""
        res = []
        for lits, ex, rt, out, addr0 in ef['paths']:
            A = {'lits': lits, 'regs': [], 'fregs': [], 'writes': {}, 'committed': [], 'ctl': [], 'out': out, 'io': [], 'phase_ctl': [], 'where': None}
            addr, val = dict(addr0), {}
            for phase, evs in (('execute', ex), ('retire', rt)):
                for e in flatten(evs):
                    A['where'] = A['where'] or e.where
                    n = e.name.split('::')[-1]
                    if e.kind == 'call' and n == 'setRegister':
                        r, v = e.args
                        k, ix, rat = self.translated(r)
                        A['regs' if k == 'R' else 'fregs' if k == 'F' else 'ctl'].append((ix, v, phase, rat, e.where))
                    elif e.kind == 'call' and n == 'specifyWriteAddress':
                        addr[e.args[0]] = e.args[1]
                    elif e.kind == 'call' and n == 'setValue':
                        w = [x for x in subterms(e.recv) if x[0] == 'call' and x[1].endswith('Cpu::getWrite')]
                        if w:
                            val[w[0][-1]] = e.args[0]
                        else:
                            A['ctl'].append((n, e.args, phase, None, e.where))
                    elif e.kind == 'call' and n == 'writeMemory':
                        A['committed'].append((e.args[0], phase, e.where))
                    elif e.kind == 'out':
                        A['io'].append((e, phase))
                    elif e.kind == 'call':
                        A['ctl'].append((n, e.args, phase, e.recv, e.where))
                    elif e.kind in ('write', 'mut'):
                        if e.recv == self.entry_fields()['operands'] or self.E.root(e.recv) == self.entry_loc and 'operands' in str(e.recv):
                            continue
                        A['io'].append((e, phase))
            for i in sorted(set(addr) | set(val), key=repr):
                A['writes'][i] = (addr.get(i), val.get(i))
            res.append(A)
        return res

    def translated(self, r):
        """('R'|'F', architectural index, rat) of a translated physical register term."""
        if r[0] == 'call' and r[1].endswith('translate'):
            v = r[-1]
            k = 'F' if v[0] == 'rec' and v[1].endswith('FloatRegister') else 'R'
            return k, self.index(v), r[2]
        if r[0] == 'rec':
            k = 'F' if r[1].endswith('FloatRegister') else 'R'
            return k, self.index(r), None
        return '?', r, None


class _S:
    def __init__(self, store):
        self.store = store
