"""Extraction of the resolved program from /repo's working tree, and its merged, indexed form."""
import hashlib, json, os, subprocess, sys, pickle, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
CACHE = os.path.join(VERIF, '.cache')
SKIP_DIRS = {'tests', 'benchmarks', '_build', 'build', '.git'}
SCHEMA = 'ir-12'


def always_throws(f):
    """a body that ends in a throw and cannot leave any other way"""
    b = f.get('body')
    if not b or not b.get('b'):
        return False
    last = b['b'][-1]
    if last.get('k') == 'expr':
        last = last.get('e', {})
    if last.get('k') != 'throw':
        return False
    return not has_kind(b, ('return', 'goto', 'lambda'))


def has_kind(n, kinds):
    if isinstance(n, dict):
        return n.get('k') in kinds or any(has_kind(v, kinds) for v in n.values())
    if isinstance(n, list):
        return any(has_kind(v, kinds) for v in n)
    return False


class AnalysisError(Exception):
    """The analysis could not be carried out (vanished anchor, unparsable source): neither pass nor violation."""


def log(*a):
    print(*a, file=sys.stderr)


def _build_extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'extract-' + h)
    for cand in (os.path.join(VERIF, 'bin', 'extract-' + h), exe):     # bin/: built from this very source, see tools/mkbin.sh
        if os.path.exists(cand) and subprocess.run([cand], capture_output=True).returncode in (0, 1, 2):
            return cand, h
    lib = '/usr/lib/llvm-18/lib'
    tmp = exe + '.tmp%d' % os.getpid()
    cmd = ['g++', '-std=c++17', '-fno-rtti', '-O1', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           lib + '/libclang-cpp.so.18.1', lib + '/libLLVM.so.18.1']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('extractor does not build: ' + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe, h


def _sources():
    tus, allf = [], []
    for d, ds, fs in os.walk(SRC):
        ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(('.cpp', '.cc', '.cxx')):
                tus.append(p)
                allf.append(p)
            elif f.endswith(('.h', '.hpp', '.hh')):
                allf.append(p)
    return tus, allf


def _extract_one(exe, src, out):
    cmd = [exe, SRC, out, src, '-std=c++20', '-I' + SRC, '-I' + SRC + '/common', '-DLOG_LEVEL=2', '-w',
           '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        return src, None, (r.stderr or '')[-3000:]
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    return src, d, ''


def load():
    exe, xh = _build_extractor()
    tus, allf = _sources()
    if not tus:
        raise AnalysisError('no translation units under ' + SRC)
    h = hashlib.sha256((xh + SCHEMA).encode())
    for p in allf:
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    key = h.hexdigest()[:24]
    pk = os.path.join(CACHE, 'ir-%s.pickle' % key)
    if os.path.exists(pk):
        try:
            with open(pk, 'rb') as f:
                return Program(*pickle.load(f))
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix='sa-extract-')
    try:
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda a: _extract_one(exe, a[1], os.path.join(tmp, '%d.json' % a[0])), enumerate(tus)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    merged = {'funcs': {}, 'classes': {}, 'enums': {}, 'globals': {}}
    for src, d, err in res:
        if d is None:
            raise AnalysisError('cannot parse %s:\n%s' % (src, err))
        for sec in merged:
            for k, v in d[sec].items():
                if sec == 'funcs' and v.get('q') == 'main':
                    k = 'main@' + v['file']
                    v['q'], v['fn'] = k, k
                old = merged[sec].get(k)
                if old is None or (sec == 'globals' and 'init' not in old):
                    merged[sec][k] = v
    tul = [os.path.relpath(t, SRC) for t in tus]
    try:
        for f in os.listdir(CACHE):
            if f.startswith('ir-') and len(os.listdir(CACHE)) > 12:
                os.unlink(os.path.join(CACHE, f))
        with open(pk + '.tmp%d' % os.getpid(), 'wb') as f:
            pickle.dump((merged, tul), f, protocol=4)
        os.replace(pk + '.tmp%d' % os.getpid(), pk)
    except OSError:
        pass
    return Program(merged, tul)


class Program:
    def __init__(self, m, tus):
        self.funcs, self.enums, self.globals = m['funcs'], m['enums'], m['globals']
        self.tus = tus
        self.classes = {}
        for t, c in m['classes'].items():
            self.classes.setdefault(c['q'], c)
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f['q'], []).append(f)
        self.subs = {}
        for q, c in self.classes.items():
            for b in c['bases']:
                self.subs.setdefault(b, []).append(q)
        self.methods = {}
        for q, c in self.classes.items():
            for mth in c['methods']:
                self.methods.setdefault((q, mth['name']), []).append(mth)
        self.overriders = {}
        for q, c in self.classes.items():
            for mth in c['methods']:
                for o in mth.get('overrides', []):
                    self.overriders.setdefault(o, []).append(mth)

    # -- lookup -----------------------------------------------------------------------------------
    def throwers(self):
        """functions that do nothing but throw"""
        if not hasattr(self, '_throwers'):
            self._throwers = {k for k, f in self.funcs.items() if always_throws(f)}
        return self._throwers

    def fns(self, q):
        return self.by_q.get(q, [])

    def fn(self, q, npar=None, pred=None):
        c = self.fns(q)
        if npar is not None:
            c = [f for f in c if len(f['params']) == npar]
        if pred:
            c = [f for f in c if pred(f)]
        if not c:
            raise AnalysisError('anchor vanished: function %s' % q)
        return c[0]

    def cls(self, q):
        if q not in self.classes:
            raise AnalysisError('anchor vanished: class %s' % q)
        return self.classes[q]

    def enum(self, q):
        if q not in self.enums:
            raise AnalysisError('anchor vanished: enum %s' % q)
        return self.enums[q]

    def bases_of(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop()
            for b in self.classes.get(x, {}).get('bases', []):
                if b and b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def derives(self, q, base):
        return q == base or base in self.bases_of(q)

    def all_subs(self, q):
        out, todo = [], [q]
        while todo:
            for s in self.subs.get(todo.pop(), []):
                if s not in out:
                    out.append(s)
                    todo.append(s)
        return sorted(out)

    def lookup_method(self, cls, name, npar=None):
        """Most derived implementation of method `name` visible in class `cls` (None when undefined/pure)."""
        todo = [cls]
        seen = set()
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for m in self.methods.get((c, name), []):
                f = self.funcs.get(m['fn'])
                if f is not None and (npar is None or len(f['params']) == npar):
                    return f
            todo += self.classes.get(c, {}).get('bases', [])
        return None

    def where(self, f, line=None):
        return 'src/%s:%s' % (f.get('file', '?'), line or f.get('line'))


def align(ref, cur):
    """Renamed fields: a field that disappeared and a new one of the same class and type are taken for the same field.
    The current program is rewritten to use the reference's names (in place). Returns the renamings."""
    import difflib
    ren = {}
    for q, c in cur.classes.items():
        r = ref.classes.get(q)
        if not r:
            continue
        rn, cn = [f['n'] for f in r['fields']], [f['n'] for f in c['fields']]
        gone = [f for f in r['fields'] if f['n'] not in cn]
        new = [f for f in c['fields'] if f['n'] not in rn]
        for t in {f['t'] for f in gone}:
            g, n = [f['n'] for f in gone if f['t'] == t], [f['n'] for f in new if f['t'] == t]
            if len(g) != len(n):
                continue
            if [x for x in rn if x not in g] + g and len(g) > 1:
                sim = sorted(((difflib.SequenceMatcher(None, a, b).ratio(), a, b) for a in g for b in n), reverse=True)
                pos = dict(zip(g, n))
                best = {}
                for s, a, b in sim:
                    if a not in best and b not in best.values() and s > 0.8:
                        best[a] = b
                if len(best) == len(g):
                    pos = best
                pairs = pos.items()
            else:
                pairs = zip(g, n)
            for a, b in pairs:
                ren[(q, b)] = a
    if not ren:
        return ren
    names = {}
    for (q, b), a in ren.items():
        names.setdefault(q, {})[b] = a

    def go(x):
        if isinstance(x, dict):
            m = names.get(x.get('cls'))
            if m:
                if x.get('k') == 'fld' and x.get('n') in m:
                    x['n'] = m[x['n']]
                if 'fields' in x and x.get('k') in ('init', 'initlist'):
                    x['fields'] = [m.get(f, f) for f in x['fields']]
                if 'field' in x and x['field'] in m:
                    x['field'] = m[x['field']]
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    for f in cur.funcs.values():
        go(f)
    for g in cur.globals.values():
        go(g)
    for q, c in cur.classes.items():
        for f in c['fields']:
            go(f)
            if q in names:
                f['n'] = names[q].get(f['n'], f['n'])
    return ren


REF = os.path.join(VERIF, 'ref', 'ref.json.xz')


def load_ref():
    """The reviewed reference program (tools/mkref.py)."""
    import lzma
    with lzma.open(REF, 'rt') as f:
        d = json.load(f)
    return Program(d['ir'], d['tus'])


def save_ref():
    import lzma
    p = load()
    m = {'funcs': p.funcs, 'classes': {q: c for q, c in p.classes.items()}, 'enums': p.enums, 'globals': p.globals}
    os.makedirs(os.path.dirname(REF), exist_ok=True)
    head = subprocess.run(['git', '-C', REPO, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    with lzma.open(REF, 'wt', preset=9) as f:
        json.dump({'commit': head, 'ir': m, 'tus': p.tus}, f, sort_keys=True)
