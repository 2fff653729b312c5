"""The debug protocol, decided on the current source of both programs: request/answer pairing on every path, agreement of the command
words, argument counts, acknowledgements and stop reasons that one side produces with those the other side recognises."""
from engine import Engine, PathLimit
from terms import subterms

SEND, RECV = 'Messenger::Send', 'Messenger::Receive'
# stop reasons: what the machine reports -> what the debugger must take it for
REASONS = {'Begin': 'ExecutionBegin', 'SoftwareBreakpoint': 'SoftwareBreakpointHit', 'HardwareBreakpoint': 'HardwareBreak',
           'SingleStep': 'Singlestep', 'Halt': 'ExecutionEnd', 'CpuError': 'CpuError'}


def talkers(ctx):
    """functions that reach the messenger"""
    import rules_conf
    mr = rules_conf.conf(ctx.P).C.mr
    P = ctx.P
    direct = {k for k, f in P.funcs.items() if 'body' in f and any(n.get('k') == 'call' and n.get('q') in (SEND, RECV) for n in nodes(f['body']))}
    reach = set(direct)
    again = True
    while again:
        again = False
        for k, cs in mr.callees.items():
            if k not in reach and any(c in reach for c in cs if not isinstance(c, tuple)):
                reach.add(k)
                again = True
    return direct, reach


def nodes(n):
    import rules_direct
    return rules_direct.nodes(n)


class Side:
    """summaries of the functions of one side, with everything that talks inlined"""

    def __init__(self, ctx, reach, cls):
        self.P, self.reach, self.cls = ctx.P, reach, cls
        self.names = {ctx.P.funcs[k]['q'] for k in reach}

    def opaque(self, q, n):
        if q in (SEND, RECV):
            return True
        return not (q in self.names or q.rsplit('::', 1)[0] == self.cls and q.split('::')[-1] != self.cls.split('::')[-1])

    def paths(self, f):
        e = Engine(self.P, noinline_pred=self.opaque, max_paths=4000)
        e.loopx = True
        return e.run(f)


def net(evs):
    """(sends - receives outside loops, [imbalances of the loop iterations])"""
    n, loops = 0, []
    for ev in evs:
        if ev.kind == 'call' and ev.name == SEND:
            n += 1
        elif ev.kind == 'call' and ev.name == RECV:
            n -= 1
        elif ev.kind == 'loop':
            for it in ev.args:
                if it[0] == ('init',):
                    continue
                m, inner = net(it[1])
                loops += inner
                loops.append(m)
    return n, loops


def entry(P, f):
    """an operation of the interface the debugger core uses"""
    return any(m['fn'] == f['fn'] and m.get('overrides') for ms in (P.methods.get((f['cls'], f['q'].split('::')[-1]), []),) for m in ms)


def sides(ctx):
    P = ctx.P
    direct, reach = talkers(ctx)
    dbg = sorted({P.funcs[k]['cls'] for k in direct if P.funcs[k].get('cls') and P.funcs[k]['file'].startswith('debugger/') and any(b for b in P.bases_of(P.funcs[k]['cls']))})
    vm = sorted({P.funcs[k]['cls'] for k in direct if P.funcs[k].get('cls') and P.funcs[k]['file'].startswith('t86/')})
    return reach, dbg, vm


def pairing(ctx):
    P = ctx.P
    ctx.rule('request/answer pairing', 'on every path of every operation of the process layer, one answer is received for each request sent; only waiting for a stop receives without a request')
    reach, dbg, _ = sides(ctx)
    if not dbg:
        ctx.undecided('no class of the debugger talks to a messenger', '')
        return
    for cls in dbg:
        S = Side(ctx, reach, cls)
        for k in sorted(reach):
            f = P.funcs[k]
            if f.get('cls') != cls or 'body' not in f or not entry(P, f):
                continue
            where = 'src/%s:%s' % (f['file'], f['line'])
            ctx.functions.add(f['q'])
            want = -1 if f['q'].split('::')[-1] == 'Wait' else 0
            try:
                ps = S.paths(f)
            except PathLimit:
                ctx.undecided(f['q'], where, 'path limit')
                continue
            bad, und = None, None
            for p in ps:
                if any(ev.kind == 'call' and ev.name in S.names for ev in p.events):
                    und = 'a helper that talks was not inlined'
                n, loops = net(p.events)
                off = [m for m in loops if m]
                if n == want and not off:
                    continue
                if off and (min(off) < 0 < max(off) or (n - want) * sum(off) < 0):
                    und = 'requests and answers are handled in different loops'
                    continue
                out = p.out[0] if p.out else 'return'
                if out == 'throw' and n == want + 1 and not off and want == 0 and not any(ev.kind == 'call' and ev.name == RECV for ev in p.events[last(p.events, SEND):]):
                    bad = bad or 'a path sends a request and throws before the answer is taken'
                    continue
                bad = bad or ('an iteration of a loop sends %+d more requests than it takes answers' % off[0] if off else
                              'a path (%s) sends %+d more requests than it takes answers' % (out, n - want))
            if bad and not und:
                ctx.bad('%s: requests and answers do not pair up' % f['q'], where, bad)
            elif und:
                ctx.undecided(f['q'], where, und)
            else:
                ctx.ok(f['q'], where)


def last(evs, name):
    return max([i for i, ev in enumerate(evs) if ev.kind == 'call' and ev.name == name] or [0])


def dispatchers(ctx, reach, vm):
    """functions of the VM that receive commands in a loop: [(function, variants)], variant = (literals, events, outcome, inside the loop)"""
    P = ctx.P
    out = []
    for cls in vm:
        S = Side(ctx, reach, cls)
        for k in sorted(reach):
            f = P.funcs[k]
            if f.get('cls') != cls or 'body' not in f or not any(n.get('k') == 'call' and n.get('q') == RECV for n in nodes(f['body'])):
                continue
            ps = S.paths(f)
            vs, seen = [], set()
            for p in ps:
                evs = p.events
                for i, ev in enumerate(evs):
                    if ev.kind == 'loop' and any(talks(it[1]) for it in ev.args if it[0] != ('init',)):
                        if ev.name not in seen:
                            seen.add(ev.name)
                            for it in ev.args:
                                if it[0] != ('init',):
                                    vs.append((dict(it[0]), it[1], None, True))
                        evs = evs[i + 1:]
                        break
                vs.append((dict(p.lits), evs, p.out, False))
            if seen:
                out.append((f, vs))
    return out


def talks(evs):
    return any(ev.kind == 'call' and ev.name in (SEND, RECV) for ev in evs)


def answers(ctx):
    ctx.rule('one answer per command', 'on every path of the command loop of the VM exactly one answer is sent for the command received (none when the connection is gone)')
    reach, _, vm = sides(ctx)
    n = 0
    for f, vs in dispatchers(ctx, reach, vm):
        where = 'src/%s:%s' % (f['file'], f['line'])
        ctx.functions.add(f['q'])
        for lits, evs, out, inside in vs:
            if out and out[0] == 'throw':
                continue
            r = sum(ev.kind == 'call' and ev.name == RECV for ev in evs)
            s, loops = net(evs)
            s += r
            lost = any(not v and a[0] in ('has_value',) and any(x[0] == 'ret' and x[1] == RECV for x in subterms(a)) for a, v in lits.items())
            name = '%s: %s' % (f['q'], word(lits) or ('connection lost' if lost else 'any other command'))
            if any(loops) or r != 1:
                ctx.undecided(name, where, 'answers sent in a loop, or the command is received elsewhere')
            elif s != (0 if lost else 1):
                ctx.bad('%s: %d answers' % (name, s), where, 'a path of the command loop sends %d answers' % s)
            else:
                n += 1
                ctx.ok(name, where)
    if not n:
        ctx.undecided('no command loop recognised', '')


def received(t):
    """the value of a received message"""
    return t[0] == 'fld' and t[2] in ('$val',) and t[1][0] == 'ret' and t[1][1] == RECV or t[0] == 'ret' and t[1] == RECV


def part(t):
    """which part of the command a term denotes: ('word', i), ('all',) or None"""
    while t[0] in ('str_of', 'view', 'tostr') and len(t) == 2:
        t = t[1]
    if received(t):
        return ('all',)
    if t[0] == 'at' and t[1][0] == 'ret' and t[1][1] in ('utils::split_v', 'utils::split') and t[2][0] == 'int' and t[1][3] and received(t[1][3][0]):
        return ('word', t[2][1])
    return None


def word(lits):
    for a, v in lits.items():
        if v and a[0] in ('eq', 'starts_with'):
            ss = [x[1] for x in a[1:] if x[0] == 'str']
            if ss and any(part(x) in (('all',), ('word', 0)) for x in a[1:] if isinstance(x, tuple)):
                return ss[0]
    return None


def message(t):
    """the words of a message term: constants, None for a word with a run-time part; and whether the end is open (run-time text)"""
    ps = [t] if t[0] != 'cat' else list(t[1])
    ws, cur, dyn, had = [], '', False, False
    for p in ps:
        if p[0] == 'str':
            for ch in p[1]:
                if ch == ' ':
                    if cur or dyn:
                        ws.append(None if dyn else cur)
                    cur, dyn = '', False
                else:
                    cur += ch
        else:
            dyn = True
            had = p[0] != 'int'
    if cur or dyn:
        ws.append(None if dyn else cur)
    return ws


def evaluate(a, ws):
    """truth of an atom for a message of these words"""
    if a[0] == 'has_value' and a[1][0] == 'ret' and a[1][1] == RECV:
        return True, False
    if a[0] not in ('eq', 'starts_with'):
        return None, False
    xs = [x for x in a[1:] if isinstance(x, tuple)]
    ss = [x[1] for x in xs if x[0] == 'str']
    pt = [part(x) for x in xs if x[0] != 'str']
    if len(ss) != 1 or len(pt) != 1 or pt[0] is None:
        return None, False
    s, pt = ss[0], pt[0]
    if pt == ('all',):
        const = []
        for w in ws:
            if w is None:
                break
            const.append(w)
        whole = len(const) == len(ws)
        text = ' '.join(const) + ('' if whole else ' ')
        if a[0] == 'eq':
            return (text == s if whole else None if s.startswith(text) else False), True
        return (True if text.startswith(s) else None if not whole and s.startswith(text) else False), True
    i = pt[1]
    if i >= len(ws):
        return None, False
    if ws[i] is None:
        return None, False
    return (ws[i] == s if a[0] == 'eq' else ws[i].startswith(s)), i == 0


def requests(ctx, reach, cls):
    """(function, words of the request, expected constant answers or None)"""
    P = ctx.P
    S = Side(ctx, reach, cls)
    out = {}
    for k in sorted(reach):
        f = P.funcs[k]
        if f.get('cls') != cls or 'body' not in f or not entry(P, f):
            continue
        try:
            ps = S.paths(f)
        except PathLimit:
            continue

        def go(evs, lits, normal):
            for i, ev in enumerate(evs):
                if ev.kind == 'loop':
                    for it in ev.args:
                        if it[0] != ('init',):
                            go(it[1], dict(it[0]), True)
                elif ev.kind == 'call' and ev.name == SEND and ev.args:
                    t = ev.args[0]
                    ws = message(t)
                    if not ws or ws[0] is None:
                        continue
                    nxt = [e2 for e2 in evs[i + 1:] if e2.kind == 'call' and e2.name in (SEND, RECV)]
                    want = None
                    sends = [e2 for e2 in evs if e2.kind == 'call' and e2.name == SEND]
                    if normal and len(sends) == 1 and nxt and nxt[0].name == RECV:
                        got = [x[1] for a, v in lits.items() if v and a[0] == 'eq' and any(isinstance(y, tuple) and received(y) for y in a[1:]) for x in a[1:] if x[0] == 'str']
                        want = got[0] if len(got) == 1 else None
                    opened = t[0] == 'cat' and t[1][-1][0] not in ('str', 'tostr', 'int')
                    out.setdefault((f['q'], tuple(ws)), (f, opened, set()))[2].add(want if normal else False)
        for p in ps:
            go(p.events, dict(p.lits), not p.out or p.out[0] == 'return')
    return out


def agreement(ctx):
    P = ctx.P
    ctx.rule('protocol agreement', 'every request the debugger can send is recognised by the command loop of the VM with enough words for the arguments taken, and is answered with the acknowledgement the debugger insists on')
    reach, dbg, vm = sides(ctx)
    try:
        ds = dispatchers(ctx, reach, vm)
    except PathLimit:
        ds = []
    if len(ds) != 1 or not dbg:
        ctx.undecided('command loop of the VM', '', 'not recognised')
        return
    g, vs = ds[0]
    ctx.functions.add(g['q'])
    known, todo = 0, []
    rep = None
    for cls in dbg:
        for (q, ws), (f, opened, wants) in sorted(requests(ctx, reach, cls).items(), key=lambda x: repr(x[0])):
            ctx.functions.add(q)
            where = 'src/%s:%s' % (f['file'], f['line'])
            name = '%s: %s' % (q, ' '.join(w or '<..>' for w in ws))
            hit, maxi, replies, unk = False, -1, set(), False
            for lits, evs, out, inside in vs:
                vals = [(a, v) + evaluate(a, ws) for a, v in lits.items()]
                if any(t is not None and t != v for a, v, t, c in vals):
                    continue
                if not any(t and v and c for a, v, t, c in vals):
                    unk = unk or any(t is None and (a[0] not in ('has_value',)) for a, v, t, c in vals)
                    continue
                hit = True
                for t in list(lits) + [x for ev in evs for x in ev.args if isinstance(x, tuple) and ev.kind != 'loop']:
                    for x in subterms(t):
                        pt = part(x) if isinstance(x, tuple) and x else None
                        if pt and pt[0] == 'word':
                            maxi = max(maxi, pt[1])
                if not (out and out[0] == 'throw'):
                    for ev in evs:
                        if ev.kind == 'call' and ev.name == SEND and ev.args:
                            replies.add(ev.args[0][1] if ev.args[0][0] == 'str' else None)
            if hit:
                known += 1
            todo.append((name, where, ws, opened, wants, hit, maxi, replies, unk))
    for name, where, ws, opened, wants, hit, maxi, replies, unk in todo:
        if not hit:
            if unk or known < 5:
                ctx.undecided(name, where, 'the recognition of commands is not understood')
            else:
                ctx.bad('%s is not a command of the VM' % name, where, 'no branch of %s recognises %s' % (g['q'], ws[0]))
            continue
        if maxi >= len(ws) and not opened:
            ctx.bad('%s lacks an argument' % name, where, '%s takes word %d of the command' % (g['q'], maxi))
            continue
        want = {w for w in wants if w is not False}
        if len(want) == 1 and None not in want and replies and None not in replies and not replies & want:
            ctx.bad('%s: acknowledgement' % name, where, 'the debugger insists on %r, the VM answers %s' % (sorted(want)[0], ', '.join(map(repr, sorted(replies)))))
            continue
        ctx.ok(name, where)
    if not todo:
        ctx.undecided('no requests found', '')


def reasons(ctx):
    P = ctx.P
    ctx.rule('stop reasons agree', 'the text the VM sends for each stop reason is mapped by the debugger to the stop reason of that meaning')
    reach, dbg, vm = sides(ctx)
    try:
        ds = dispatchers(ctx, reach, vm)
    except PathLimit:
        ds = []
    if len(ds) != 1 or not dbg:
        ctx.undecided('command loop of the VM', '', 'not recognised')
        return
    g, vs = ds[0]
    said = {}
    for lits, evs, out, inside in vs:
        if word(lits) != 'REASON' or out and out[0] == 'throw':
            continue
        es = [x[1] for a, v in lits.items() if v and a[0] == 'eq' for x in a[1:] if x[0] == 'enum']
        ts = [ev.args[0] for ev in evs if ev.kind == 'call' and ev.name == SEND]
        if len(es) == 1 and len(ts) == 1 and ts[0][0] == 'str':
            said[es[0].split('::')[-1]] = ts[0][1]
    heard = {}
    hf = None
    for cls in dbg:
        S = Side(ctx, reach, cls)
        for k in sorted(reach):
            f = P.funcs[k]
            if f.get('cls') != cls or 'body' not in f or not entry(P, f):
                continue
            ps = None
            try:
                ps = S.paths(f)
            except PathLimit:
                continue
            if not any(ev.kind == 'call' and ev.name == SEND and message(ev.args[0])[:1] == ['REASON'] for p in ps for ev in p.events):
                continue
            hf = f
            heard['*'] = ps
    if len(said) < 4 or not hf:
        ctx.undecided('stop reasons', '', 'tables not recognised')
        return
    where = 'src/%s:%s' % (hf['file'], hf['line'])
    ctx.functions.add(hf['q'])
    for r, text in sorted(said.items()):
        if r not in REASONS:
            ctx.undecided('stop reason ' + r, where, 'unknown reason')
            continue
        got = set()
        for p in heard['*']:
            vals = [(v, evaluate(a, [text])[0]) for a, v in p.lits.items()]
            if any(t is not None and t != v for v, t in vals):
                continue
            if any(t is None for v, t in vals):
                got.add(None)
            elif p.out and p.out[0] == 'return' and p.out[1] and p.out[1][0] == 'enum':
                got.add(p.out[1][1].split('::')[-1])
            else:
                got.add('an error' if p.out and p.out[0] == 'throw' else None)
        if None in got or len(got) != 1:
            ctx.undecided('stop reason ' + r, where, 'not decided')
        elif got != {REASONS[r]} and (got == {'an error'} or got & set(REASONS.values())):
            ctx.bad('stop reason %s is sent as %s and taken for %s' % (r, text, sorted(got)[0]), where, 'expected %s' % REASONS[r])
        elif got != {REASONS[r]}:
            ctx.undecided('stop reason ' + r, where, 'unknown name')
        else:
            ctx.ok('%s = %s = %s' % (r, text, REASONS[r]), where)


RULES = {'C11': [answers], 'C12': [pairing], 'C13': [agreement, reasons]}
