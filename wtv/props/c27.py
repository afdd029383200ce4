"""Parallel loops: the iterations of every loop that numba may run on several
threads are independent of each other."""
import ast
import json
import subprocess
from ..util import *
import numpy as np

ASSUMPTIONS = ['distinct array arguments of a parallel function do not '
               'overlap (the run-time contract compares addresses)',
               'numba runs a prange loop of a function compiled with '
               'parallel=True in an arbitrary order on any number of threads, '
               'and nothing else concurrently',
               'scalars assigned in a parallel loop are private to the '
               'iteration (numba)']


# ------------------------------------------------- discovery and extraction
def _deco(d):
    """'parallel' / 'serial' / None for a decorator expression"""
    c = d.func if isinstance(d, ast.Call) else d
    n = c.attr if isinstance(c, ast.Attribute) else getattr(c, 'id', '')
    par = isinstance(d, ast.Call) and any(
        k.arg == 'parallel' and not (
            isinstance(k.value, ast.Constant) and not k.value.value)
        for k in d.keywords)
    if par or n == 'njit_parallel':
        return 'parallel'
    if n in ('njit', 'jit', 'njit_serial', 'vectorize', 'guvectorize'):
        return 'serial'
    return None


def _is_prange(f):
    return isinstance(f, ast.For) and isinstance(f.iter, ast.Call) and (
        getattr(f.iter.func, 'id', '') == 'prange' or
        getattr(f.iter.func, 'attr', '') == 'prange')


def discover(repo=None):
    """(module, qualified name, node): functions with a prange loop that are
    compiled parallel, or are not compiled where they are defined (field
    components, which AnalyticalField compiles parallel)."""
    repo = repo or core.REPO
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(repo, 'wake_t'))):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            try:
                tree = ast.parse(open(p).read())
            except SyntaxError:
                continue
            mod = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')

            def walk(node, q):
                for s in ast.iter_child_nodes(node):
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        n = q + [s.name]
                        if isinstance(s, ast.FunctionDef):
                            k = [_deco(x) for x in s.decorator_list]
                            own = [x for x in _own(s) if _is_prange(x)]
                            if own and 'serial' not in k:
                                out.append((mod, '.'.join(n), s))
                        walk(s, n)
                    else:
                        walk(s, q)
            walk(tree, [])
    return out


def _own(f):
    """nodes of f outside nested functions"""
    st = list(f.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(n))


def kinds(f, funcs, depth=0):
    """parameter -> number of dimensions (0: scalar) from the way it is used"""
    names = [a.arg for a in f.args.args]
    nd = dict.fromkeys(names, 0)
    bound = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) \
                and n.value.id in nd:
            k = len(n.slice.elts) if isinstance(n.slice, ast.Tuple) else 1
            nd[n.value.id] = max(nd[n.value.id], k)
        elif isinstance(n, ast.Subscript) and isinstance(
                n.value, ast.Attribute) and n.value.attr == 'shape' and \
                isinstance(n.value.value, ast.Name) and \
                n.value.value.id in nd:
            k = n.slice.value + 1 if isinstance(n.slice, ast.Constant) and \
                isinstance(n.slice.value, int) and n.slice.value >= 0 else 1
            nd[n.value.value.id] = max(nd[n.value.value.id], k)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and n.value.id in nd and n.attr in ('size', 'shape'):
            nd[n.value.id] = max(nd[n.value.id], 1)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id in ('prange', 'range'):
                for a in n.args:
                    for x in ast.walk(a):
                        if isinstance(x, ast.Name):
                            bound.add(x.id)
            if n.func.id == 'len' and n.args and isinstance(
                    n.args[0], ast.Name) and n.args[0].id in nd:
                nd[n.args[0].id] = max(nd[n.args[0].id], 1)
            elif n.func.id in funcs and depth < 4:
                g = funcs[n.func.id]
                sub, _ = kinds(g, funcs, depth + 1)
                for a, b in zip(n.args, g.args.args):
                    if isinstance(a, ast.Name) and a.id in nd:
                        nd[a.id] = max(nd[a.id], sub.get(b.arg, 0))
    return nd, bound


# ------------------------------------------------------- recording arrays
class RArr:
    """array of unknown content; logs (iteration, write, index)"""

    def __init__(self, name, nd, log, shape=None):
        self.name, self.ndim, self.log = name, nd, log
        if shape is None:
            shape = tuple(I('n_%s_%d' % (name, k), positive=True)
                          for k in range(nd))
        self.shape = shape
        self.born = log.it
        self._sym_shape = True

    @property
    def size(self):
        s = lift(1)
        for k in self.shape:
            s = s * k
        return s

    def __len__(self):
        raise Unsupported('len of a symbolic array')

    def _idx(self, i):
        i = i if isinstance(i, tuple) else (i,)
        if Ellipsis in [k for k in i if not isinstance(k, T.E)]:
            i = tuple(k for k in i if k is not Ellipsis) \
                if len(i) > self.ndim else i
        out = []
        for k in i:
            if isinstance(k, T.E):
                out.append(k)
            elif isinstance(k, (int, np.integer)):
                out.append(lift(int(k)))
            elif isinstance(k, slice) or k is Ellipsis:
                out.append(None)
            else:
                raise Unsupported('index of a recorded array')
        return tuple(out)

    def __getitem__(self, i):
        ix = self._idx(i)
        if None in ix or len(ix) < self.ndim:
            raise Unsupported('slice of a recorded array')
        self.log.add(self, False, ix)
        self.log.k += 1
        return R('%s_v%d' % (self.name, self.log.k))

    def __setitem__(self, i, v):
        ix = self._idx(i)
        self.log.add(self, True, ix)

    def fill(self, v):
        self.log.add(self, True, (None,))

    def astype(self, t):
        return self

    def _no(self, *a):
        raise Unsupported('array expression in a parallel function')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __pow__ = __neg__ = __iter__ = _no
    __iadd__ = __isub__ = __imul__ = __bool__ = _no


class Log:
    def __init__(self):
        self.it, self.acc, self.k = None, [], 0

    def add(self, a, w, ix):
        if self.it is not None and a.born != self.it:
            self.acc.append((self.it, a, w, ix))


class TwoIterations:
    """two arbitrary different iterations of the loop, one after the other"""
    sym = True

    def __init__(self, log):
        self.log = log

    def __call__(self, key, rng, names, tgt):
        self.key, self.rng, self.names = key, rng, names
        return self

    def enter(self, loc):
        return tuple(T.Poison(n) for n in self.names)

    leave = head = enter

    def __iter__(self):
        c, g = X.ctx(), self.rng
        if self.log.it is not None:
            raise Unsupported('nested symbolic loop')
        lo, hi, st = lift(g.lo), lift(g.hi), g.step
        if not (isinstance(st, int) and st > 0):
            raise Unsupported('loop step')
        v = [I('iter_%d_%d' % (len(c.loops), k), nonneg=True)
             for k in range(2)]
        ix = [lo + st * k for k in v]
        c.assume(v[0] >= 0, v[1] >= 0, X.not_(X.eq(v[0], v[1])),
                 ix[0] < hi, ix[1] < hi)
        self.log.acc = []
        for k in range(2):
            self.log.it = k
            yield ix[k]
        self.log.it = None
        c.loops.append((self.key, 'two', True))
        wr = [a for a in self.log.acc if a[2]]
        n = 0
        for k, a, _, i in wr:
            for k2, a2, w2, j in self.log.acc:
                if a2 is not a or k2 == k or (w2 and k2 < k):
                    continue
                d = []
                for p, q in zip(i, j):
                    if p is not None and q is not None:
                        d.append(X.not_(X.eq(p, q)))
                g = X.or_(*d) if len(d) > 1 else d[0] if d else \
                    X.boolc(False)
                n += 1
                c.prove('what one iteration writes in `%s` another one '
                        'neither reads nor writes' % a.name, g)
        if not wr:
            c.prove('iterations write nothing', X.boolc(True))


class NP:
    def __init__(self, log):
        self.log = log

    def _new(self, shape, *a, **k):
        if not isinstance(shape, tuple):
            shape = (shape,)
        return RArr('local', len(shape), self.log,
                    tuple(lift(s) for s in shape))
    zeros = empty = ones = full = _new

    def _like(self, a, *r, **k):
        if isinstance(a, RArr):
            return RArr('local', a.ndim, self.log, a.shape)
        raise Unsupported('array expression')
    zeros_like = empty_like = ones_like = full_like = _like

    def __getattr__(self, k):
        return getattr(T.np_shim, k)


def mk(mod, qual):
    def body(ctx):
        node = None
        for m, q, n in discover():
            if (m, q) == (mod, qual):
                node = n
        if node is None:
            raise Unsupported('%s.%s not found' % (mod, qual))
        tw = twin(ctx)
        log = Log()
        try:
            M = tw.load(mod)
        except Unsupported:
            raise
        tree = ast.parse(open(M.__file__).read())
        funcs = {s.name: s for s in tree.body
                 if isinstance(s, ast.FunctionDef)}
        # the function itself, taken out of the class or function around it
        src = ast.parse(open(M.__file__).read())
        cur = src.body
        f = None
        for nm in qual.split('.'):
            f = [s for s in _defs(cur) if s.name == nm][0]
            cur = f.body
        for d in list(f.decorator_list):
            f.decorator_list.remove(d)
        f.returns = None
        one = ast.Module(body=[f], type_ignores=[])
        ast.fix_missing_locations(one)
        code = compile(ast.fix_missing_locations(
            T.Rewriter(mod).visit(one)), M.__file__, 'exec')
        M.np = NP(log)
        ctx.loop_rules = dict(ctx.loop_rules)
        ctx.loop_rules[mod + ':*'] = TwoIterations(log)
        exec(code, M.__dict__)
        g = M.__dict__[f.name]
        nd, bound = kinds(node, funcs)
        args = []
        for a in node.args.args:
            if nd[a.arg]:
                args.append(RArr(a.arg, nd[a.arg], log))
            elif a.arg in bound:
                args.append(I(a.arg, positive=True))
            else:
                args.append(R(a.arg))
        # arrays with one element per particle have the same length
        g(*args)
    return Contract(
        '%s.%s' % (mod, qual), ['%s.%s' % (mod, qual)], body=body,
        min_obligations=1, max_paths=3000)


def _defs(body):
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            yield s
        elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For)):
            yield from _defs(s.body)


# --------------------------------------------------------------- run time
SCEN = [dict(kind='deposit', shape='linear'),
        dict(kind='deposit', shape='cubic'), dict(kind='gather')] + [
    dict(kind='push', pusher=p, field=f) for p in ('boris', 'rk4')
    for f in ('quadrupole', 'lens', 'focusing', 'simple', 'custom')] + [
    dict(kind='stage', model='quasistatic_2d', laser=1, pusher='boris',
         shape='linear'),
    dict(kind='stage', model='quasistatic_2d', laser=0, pusher='rk4',
         shape='cubic'),
    dict(kind='stage', model='cold_fluid_1d', laser=1, pusher='boris',
         shape='linear'),
    dict(kind='threads', outside=3, inside=2),
    dict(kind='threads', outside=1, inside=4),
    dict(kind='threads', outside=5, inside=12)]


def sample(rng):
    sample.k += 1
    v = dict(SCEN[sample.k % len(SCEN)])
    v['seed'] = rng.randint(0, 10**6)
    v['n'] = rng.choice([2, 5, 9])
    return v


sample.k = -1


def concrete(v):
    env = dict(os.environ, NUMBA_NUM_THREADS='12' if v.get(
        'inside', 1) > 4 else '4',
               WAKET_NUM_THREADS=str(v.get('inside', 1)),
               NUMBA_DISABLE_JIT='0', WTV_REPO=core.REPO)
    env.pop('PYTHONPATH', None)
    p = subprocess.run(
        [sys.executable, os.path.join(core.VERIF, 'wtv', 'race.py'),
         json.dumps(v)], capture_output=True, text=True, env=env,
        timeout=200)
    r = [l for l in p.stdout.splitlines() if l.startswith('RESULT ')]
    if not r:
        fr = [l for l in p.stderr.splitlines() if l.startswith('  File "')]
        if fr and os.path.join(core.REPO, 'wake_t') + os.sep in fr[-1]:
            raise Violation('raised ' + p.stderr.strip().splitlines()[-1])
        raise Skip('scenario does not run: ' + p.stderr[-300:])
    r = json.loads(r[0][7:])
    for k in ('conflict', 'extra', 'diff'):
        if r[k]:
            raise Violation('schedule of the parallel loops: ' + r[k][0])


def contracts():
    out = [Contract(
        'schedules of the parallel loops', ['wake_t.utilities.numba'],
        sample=sample, concrete=concrete, n=(len(SCEN), 4 * len(SCEN)),
        bounded='2 to 9 particles, forward, reversed and shuffled order of '
        'the iterations, conflicts from logged addresses')]
    for m, q, _ in discover():
        out.append(mk(m, q))
    return out
