"""Path-exploring VC generator and the discharge of verification conditions.

A `Contract` body is a Python function body(ctx) that sets up symbolic inputs,
calls functions of the symbolic twin of /repo (twin.py) and states goals with
ctx.prove(...).  The explorer re-executes it for every feasible combination of
branch decisions; each goal on each path is one obligation.
"""
import random
import time
import traceback
from fractions import Fraction

import z3

from . import expr as X
from .expr import E, SComplex, Unsupported, PathAbort

z3.set_param('memory_max_size', 6000)

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0, 'cvc5_time': 0.0,
         'alg_calls': 0, 'alg_time': 0.0}


# --------------------------------------------------------------------------
# z3 translation
# --------------------------------------------------------------------------
class Z3T:
    def __init__(self):
        self.memo = {}
        self.side = {}       # atom E -> list of axioms
        self.used = []

    def num(self, e, want):
        """z3 term of numeric e in sort want ('Int'|'Real')."""
        t = self._num(e)
        if want == 'Real' and t.sort() == z3.IntSort():
            return z3.ToReal(t)
        return t

    def _num(self, e):
        r = self.memo.get(e)
        if r is not None:
            return r
        op = e.op
        if op == 'const':
            v = e.val
            if e.sort == 'Int' and v.denominator == 1:
                r = z3.IntVal(int(v))
            else:
                r = z3.RealVal(str(v))
        elif op == 'var':
            r = z3.Int(e.args[0]) if e.sort == 'Int' else z3.Real(e.args[0])
            if X.TAB.byid.get(e) in X.TAB.positive:
                self.side[e] = [r > 0]
            elif X.TAB.byid.get(e) in X.TAB.nonneg:
                self.side[e] = [r >= 0]
        elif op == 'ite':
            s = e.sort
            r = z3.If(self.b(e.args[0]), self.num(e.args[1], s),
                      self.num(e.args[2], s))
        elif op == 'uf':
            r = self._uf(e)
        elif op in ('add', 'mul', 'div', 'pow'):
            # through normal form if small, else structural
            try:
                n, d = X.rat(e)
            except X.TooBig:
                n = None
            if n is not None and len(n) <= 60:
                r = self.rat((n, d))
            elif op == 'add':
                r = self.num(e.args[0], 'Real') + self.num(e.args[1], 'Real')
            elif op == 'mul':
                r = self.num(e.args[0], 'Real') * self.num(e.args[1], 'Real')
            elif op == 'div':
                r = self.num(e.args[0], 'Real') / self.num(e.args[1], 'Real')
            else:
                b = self.num(e.args[0], 'Real')
                r = b
                for _ in range(e.args[1] - 1):
                    r = r * b
        else:
            raise Unsupported('z3 ' + op)
        self.memo[e] = r
        return r

    def _uf(self, e):
        name = e.args[0]
        args = e.args[1:]
        if name == 'sqrt':
            s = z3.Real('sqrt!%d' % X.atom(e))
            x = self.num(args[0], 'Real')
            self.side[e] = [s >= 0, s * s == x]
            if X.TAB.byid.get(e) in X.TAB.positive:
                self.side[e].append(s > 0)
            return s
        if name == 'floor':
            f = z3.Int('floor!%d' % X.atom(e))
            x = self.num(args[0], 'Real')
            self.side[e] = [z3.ToReal(f) <= x, x < z3.ToReal(f) + 1]
            return f
        if name in ('sin', 'cos'):
            v = z3.Real('%s!%d' % (name, X.atom(e)))
            ax = [v >= -1, v <= 1]
            self.side[e] = ax
            return v
        if name in ('exp',):
            v = z3.Real('exp!%d' % X.atom(e))
            x = self.num(args[0], 'Real')
            self.side[e] = [v > 0, v >= 1 + x,
                            z3.Implies(x <= 0, v <= 1)]
            return v
        # generic: declared function
        doms, zs = [], []
        for a in args:
            t = self._num(a)
            doms.append(t.sort())
            zs.append(t)
        rng = z3.IntSort() if e.sort == 'Int' else z3.RealSort()
        if not zs:
            return z3.Const(name, rng)
        f = z3.Function(name + '#' + ''.join(
            'I' if d == z3.IntSort() else 'R' for d in doms), *doms, rng)
        return f(*zs)

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        allint = all(X.TAB.atoms[a].sort == 'Int' for m in p for a, _ in m) \
            and all(c.denominator == 1 for c in p.values())
        want = 'Int' if allint else 'Real'
        ts = []
        for m, c in sorted(p.items()):
            t = None
            for a, n in m:
                x = self.num(X.TAB.atoms[a], want)
                for _ in range(n):
                    t = x if t is None else t * x
            k = z3.IntVal(int(c)) if allint else z3.RealVal(str(c))
            if t is None:
                t = k
            elif c != 1:
                t = k * t
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def rat(self, r):
        n, d = r
        t = self.poly(n)
        if d:
            if t.sort() == z3.IntSort():
                t = z3.ToReal(t)
            for k, p in d:
                q = self.poly(dict(k))
                if q.sort() == z3.IntSort():
                    q = z3.ToReal(q)
                for _ in range(p):
                    t = t / q
        return t

    def b(self, e):
        r = self.memo.get(e)
        if r is not None:
            return r
        op = e.op
        if op == 'const':
            r = z3.BoolVal(bool(e.val))
        elif op == 'var':
            r = z3.Bool(e.args[0])
        elif op == 'cmp':
            t = self.poly(dict(e.args[1]))
            r = t < 0 if e.args[0] == 'lt' else \
                t <= 0 if e.args[0] == 'le' else t == 0
        elif op == 'rawcmp':
            a, b = self.num(e.args[1], 'Real'), self.num(e.args[2], 'Real')
            r = a < b if e.args[0] == 'lt' else \
                a <= b if e.args[0] == 'le' else a == b
        elif op == 'and':
            r = z3.And([self.b(x) for x in e.args])
        elif op == 'or':
            r = z3.Or([self.b(x) for x in e.args])
        elif op == 'not':
            r = z3.Not(self.b(e.args[0]))
        elif op == 'uf':
            zs = [self._num(a) for a in e.args[1:]]
            f = z3.Function(e.args[0] + '#b', *[t.sort() for t in zs],
                            z3.BoolSort())
            r = f(*zs)
        else:
            raise Unsupported('z3 bool ' + op)
        self.memo[e] = r
        return r

    def axioms(self):
        out = []
        done = 0
        while True:
            items = list(self.side.values())
            if len(items) == done:
                break
            done = len(items)
        for ax in self.side.values():
            out += ax
        # known square relations (sin^2+cos^2, declared symbols)
        for a, r in list(X.TAB.sq.items()):
            e = X.TAB.atoms[a]
            if e in self.memo and not (e.op == 'uf' and e.args[0] == 'sqrt'):
                t = self.memo[e]
                out.append(t * t == self.rat(r))
        return out


def z3_check(conds, timeout_ms):
    """sat/unsat/unknown of a conjunction of boolean E; returns (res, model)"""
    t = Z3T()
    fs = [t.b(c) for c in conds]
    ax = t.axioms()
    ax2 = t.axioms()
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.set('random_seed', 1)
    for f in fs + ax2:
        s.add(f)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    if r == z3.sat:
        return 'sat', (s.model(), t)
    return ('unsat', None) if r == z3.unsat else ('unknown', s)


def cvc5_check(smt2, timeout_ms):
    import subprocess
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--nl-cov',
                            '--tlimit=%d' % timeout_ms],
                           input=smt2, capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        r = out[0] if out else 'unknown'
    except Exception:
        r = 'unknown'
    STATS['cvc5_calls'] += 1
    STATS['cvc5_time'] += time.time() - t0
    return r if r in ('sat', 'unsat') else 'unknown'


def z3_val(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(),
                              v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def model_env(mt, exprs):
    m, t = mt
    env = {}
    for name, v in X.free_vars(exprs).items():
        z = t.memo.get(v)
        if z is None:
            continue
        val = z3_val(m.eval(z, model_completion=True))
        if val is not None:
            env[name] = val
    return env


# --------------------------------------------------------------------------
# obligations
# --------------------------------------------------------------------------
class Ob:
    __slots__ = ('name', 'status', 'backend', 'time', 'env', 'detail', 'path')

    def __init__(self, name, status, backend, t, env=None, detail='',
                 path=''):
        self.name, self.status, self.backend = name, status, backend
        self.time, self.env, self.detail, self.path = t, env, detail, path


class Ctx:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.pc = []              # path condition
        self.root_hints = []
        self.nofork = False
        self.check_div = ex.check_div
        self.div_seen = []
        self.generic_n = None
        self.generic_i = None
        self.loop_rules = {}
        self.data = {}
        self.quiet = 0
        self.rawkeys = []
        self.inpc = set()
        self.known = {}
        self.in_generic = 0
        self.reads = set()
        self.loops = []
        self.wsteps = {}
        self.max_while = 50

    def frame_viol(self, name):
        self.prove('frame: %s is not modified' % name, X.FALSE)

    def generic(self, n='n_part'):
        """Verify for one arbitrary element of particle arrays."""
        self.generic_n = X.var(n, 'Int')
        self.generic_i = X.var(n + '_idx', 'Int')
        self.assume(self.generic_i >= 0, self.generic_i < self.generic_n)

    # -- branching
    opaque = None

    def decide_opaque(self, cond):
        """Conditions with large terms: a free boolean for each normal form
        (over-approximation: more paths, no assumption)."""
        if cond.op == 'cmp':
            if len(cond.args[1]) <= self.opaque:
                return None
            key = cond
            for o2, q, k2, a, b in self.rawkeys:
                # decided before the sign of the denominator was known
                if o2 == cond.args[0] and X._cmp(o2, a, b) is cond:
                    key = k2
        elif cond.op == 'rawcmp':
            op, a, b = cond.args
            try:
                n, d = X.r_add(X.rat(a), X.r_neg(X.rat(b)))
            except X.TooBig:
                return None
            key = ('raw', op, X.p_key(n), tuple(sorted(d)))
            if key not in self.known:
                for o2, q, k2, _, _ in self.rawkeys:
                    if o2 == op and not X.r_add((n, d), X.r_neg(q))[0]:
                        key = k2
                        break
                else:
                    self.rawkeys.append((op, (n, d), key, a, b))
        else:
            return None
        v = self.known.get(key)
        if v is None:
            i = len(self.decisions)
            if i < len(self.prefix):
                v = self.prefix[i]
            else:
                v = True
                self.ex.todo.append(self.decisions_copy() + [False])
            self.decisions.append(v)
            self.known[key] = v
            if cond.op == 'cmp':
                self.known[X.not_(cond)] = not v
        return v

    def decide(self, cond):
        k = self.known.get(cond)
        if k is not None:
            return k
        if self.opaque is not None:
            k = self.decide_opaque(cond)
            if k is not None:
                return k
        n = X.not_(cond)
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            ft = self.feasible(cond)
            ff = self.feasible(n)
            if ft and ff:
                v = True
                self.ex.todo.append(self.decisions_copy() + [False])
            elif ft:
                v = True
            elif ff:
                v = False
            else:
                raise PathAbort('infeasible')
            if not (ft and ff):
                # forced by the path condition: recorded (for replay of the
                # prefix) but adds no assumption
                self.decisions.append(v)
                self.known[cond] = v
                self.known[n] = not v
                return v
        self.decisions.append(v)
        self.known[cond] = v
        self.known[n] = not v
        self.pc.append(cond if v else n)
        return v

    def decisions_copy(self):
        return list(self.decisions)

    def choose(self, k, label=''):
        """Non-deterministic choice 0..k-1 (all explored)."""
        for j in range(k - 1):
            i = len(self.decisions)
            if i < len(self.prefix):
                v = self.prefix[i]
            else:
                v = True
                self.ex.todo.append(self.decisions_copy() + [False])
            self.decisions.append(v)
            if v:
                return j
        return k - 1

    def feasible(self, cond):
        if cond.op == 'const':
            return bool(cond.val)
        r, _ = z3_check(self.relevant(self.pc + [cond]),
                        self.ex.feas_timeout)
        return r != 'unsat'

    def relevant(self, conds):
        return conds

    def fresh_int(self, name, lo):
        k = self.data['fresh'] = self.data.get('fresh', 0) + 1
        v = X.var('%s!%d' % (name, k), 'Int')
        self.assume(v >= lo)
        return v

    def assume(self, *conds):
        for c in conds:
            c = X._tb(c)
            if c.op == 'const':
                if not c.val:
                    raise PathAbort('assume false')
                continue
            if c.op == 'and':
                self.assume(*c.args)
                continue
            if self.known.get(c) is True and self.opaque is None:
                continue
            if c in self.inpc:
                continue
            self.inpc.add(c)
            self.pc.append(c)
            self.known[c] = True
            self.known[X.not_(c)] = False
            self.note_sign(c)

    def note_sign(self, c):
        if c.op == 'cmp':
            p = dict(c.args[1])
            if len(p) == 1:
                (m, v), = p.items()
                if len(m) == 1 and m[0][1] == 1 and v < 0:
                    (X.TAB.positive if c.args[0] == 'lt'
                     else X.TAB.nonneg).add(m[0][0])
                    X.TAB.nonneg.add(m[0][0])

    def on_div(self, d):
        if self.check_div and not self.quiet:
            for x in self.div_seen:
                if x is d:
                    return
            self.div_seen.append(d)
            if X.sign_known(d) is not None and _strict(d):
                return
            self.prove('safety: divisor is non-zero', X.not_(
                X.eq(d, X.const(X.F0))), detail=X.show(d)[:200])

    def on_sqrt(self, x):
        if self.check_div and not self.quiet:
            if X.sign_known(x) == 1:
                return
            self.prove('safety: sqrt argument is non-negative', X.ge(
                x, X.const(X.F0)), detail=X.show(x)[:200])

    # -- goals
    def prove(self, name, goal, detail='', env=None):
        if self.ex.deadline and time.time() > self.ex.deadline:
            self.ex.truncated = True
            raise PathAbort('deadline')
        goal = X._tb(goal)
        t0 = time.time()
        path = self.path_str()
        if goal.op == 'const':
            if goal.val:
                self.ex.add(Ob(name, 'proved', 'simplifier',
                               time.time() - t0, path=path))
                return True
            # false goal: refuted iff path feasible
            goal_neg = []
        else:
            if goal.op == 'and':
                ok = True
                for g in goal.args:
                    ok = self.prove(name, g, detail) and ok
                return ok
            goal_neg = [X.not_(goal)]
        conds = self.pc + goal_neg
        r, mt = z3_check(conds, self.ex.timeout)
        if r == 'unsat':
            self.ex.add(Ob(name, 'proved', 'z3', time.time() - t0,
                           path=path))
            return True
        if r == 'sat':
            env = model_env(mt, conds)
            st = 'refuted'
            if not self.confirmed(conds, env):
                # the model misuses sin, cos, exp...: look for a real one
                env = self.sample_env(conds)
                st = 'refuted' if env is not None else 'unknown'
            self.ex.add(Ob(name, st, 'z3', time.time() - t0, env,
                           detail + ' goal: ' + X.show(goal)[:600], path))
            return False
        try:
            smt2 = '(set-logic ALL)\n' + mt.to_smt2().replace(
                '(set-info :status unknown)', '')
            rc = cvc5_check(smt2, self.ex.timeout)
        except Exception:
            rc = 'unknown'
        if rc == 'unsat':
            self.ex.add(Ob(name, 'proved', 'cvc5', time.time() - t0,
                           path=path))
            return True
        env = self.sample_env(conds)
        st = 'refuted' if env is not None else 'unknown'
        self.ex.add(Ob(name, st, 'sampling' if env else 'z3+cvc5',
                       time.time() - t0, env,
                       detail + ' goal: ' + X.show(goal)[:600], path))
        return False

    def prove_eq(self, name, a, b, detail=''):
        t0 = time.time()
        if isinstance(a, SComplex) or isinstance(b, SComplex):
            a, b = X.tocomplex(a), X.tocomplex(b)
            r1 = self.prove_eq(name + ' [re]', a.re, b.re, detail)
            return self.prove_eq(name + ' [im]', a.im, b.im, detail) and r1
        a, b = X.lift(a), X.lift(b)
        path = self.path_str()
        # numeric filter first: cheap refutation of non-identities
        try:
            d = X.r_add(X.rat(a), X.r_neg(X.rat(b)))
            d = X.r_fixsq(d)
            STATS['alg_calls'] += 1
            STATS['alg_time'] += time.time() - t0
            if not d[0]:
                self.ex.add(Ob(name, 'proved', 'rational-normal-form',
                               time.time() - t0, path=path))
                return True
        except X.TooBig:
            pass
        env = self.refute_eq(a, b)
        if env is not None:
            self.ex.add(Ob(name, 'refuted', 'sampling', time.time() - t0,
                           env, '%s  lhs=%s rhs=%s' % (
                               detail, X.show(a)[:300], X.show(b)[:300]),
                           path))
            return False
        return self.prove(name, X.eq(a, b), detail)

    def path_str(self):
        return ''.join('T' if d else 'F' for d in self.decisions)

    def confirmed(self, conds, env):
        fs = X.uf_names(conds)
        if not any(f in X.TRANSC for f in fs) or \
                any(f not in X._FN for f in fs):
            return True
        try:
            memo = {}
            return all(X.holds(c, env, memo) for c in conds)
        except Exception:
            return False

    # -- numeric refutation
    def sample_env(self, conds, n=400):
        """Random assignment satisfying all conds numerically, or None."""
        fv = X.free_vars(conds)
        rng = random.Random(12345)
        for k in range(n):
            env = rand_env(fv, rng)
            ufs = rand_ufs(k)
            try:
                memo = {}
                if all(X.holds(c, env, memo, True, ufs) for c in conds):
                    return env
            except Exception:
                continue
        return None

    def refute_eq(self, a, b, n=60):
        fv = X.free_vars([a, b] + self.pc)
        rng = random.Random(4321)
        hits = 0
        for k in range(n * 5):
            env = rand_env(fv, rng)
            ufs = rand_ufs(k)
            try:
                memo = {}
                if not all(X.evaluate(c, env, ufs, memo) for c in self.pc):
                    continue
                x = X.evaluate(a, env, ufs, memo)
                y = X.evaluate(b, env, ufs, memo)
            except Exception:
                continue
            hits += 1
            sc = max(abs(x), abs(y), 1e-30)
            if abs(x - y) > 1e-6 * sc and abs(x - y) > 1e-9:
                # relations between declared symbols must hold
                if relations_hold(env, ufs):
                    return env
            if hits >= n:
                break
        return None


def relations_hold(env, ufs):
    for a, r in X.TAB.sq.items():
        e = X.TAB.atoms[a]
        if e.op != 'var':
            continue
        try:
            v = X.evaluate(e, env, ufs)
            w = X.evaluate(X.from_rat(r), env, ufs)
        except Exception:
            return False
        if abs(v * v - w) > 1e-9 * max(1, abs(w)):
            return False
    return True


def rand_env(fv, rng):
    env = {}
    for name, v in sorted(fv.items()):
        if v.sort == 'Bool':
            env[name] = rng.random() < .5
        elif v.sort == 'Int':
            env[name] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12])
        else:
            x = rng.choice([rng.uniform(-3, 3), rng.uniform(0, 1),
                            rng.uniform(0, 10), rng.uniform(-.5, .5)])
            a = X.TAB.byid.get(v)
            if a in X.TAB.positive:
                x = abs(x) + 1e-3
            elif a in X.TAB.nonneg:
                x = abs(x)
            env[name] = x
    # declared square relations on variables: project
    for a, r in X.TAB.sq.items():
        e = X.TAB.atoms[a]
        if e.op == 'var' and e.args[0] in env:
            try:
                w = X.evaluate(X.from_rat(r), env, None)
                if w >= 0:
                    env[e.args[0]] = w ** .5 * (
                        1 if a in X.TAB.nonneg or rng.random() < .5 else -1)
                else:
                    # rescale dependents towards zero
                    for k2 in list(env):
                        env[k2] = env[k2]
            except Exception:
                pass
    return env


def rand_ufs(seed):
    def f(name, args):
        h = hash((name, seed) + tuple(round(float(a), 9) for a in args))
        return random.Random(h).uniform(-2, 2)
    return f


def _strict(d):
    try:
        n, dd = X.rat(d)
    except X.TooBig:
        return False
    s = X.p_sign(n)
    return s is not None and abs(s) == 1


# --------------------------------------------------------------------------
class Explorer:
    def __init__(self, timeout=8000, feas_timeout=1500, max_paths=600,
                 check_div=False, deadline=None):
        self.timeout = timeout
        self.feas_timeout = feas_timeout
        self.max_paths = max_paths
        self.check_div = check_div
        self.todo = []
        self.obs = []
        self.paths = 0
        self.ended = 0
        self.truncated = False
        self.deadline = deadline
        self.errors = []
        self.completed = 0
        self.bad = 0

    def add(self, ob):
        self.obs.append(ob)

    def run(self, body):
        """Explore all paths of body(ctx).  A path outside the supported
        subset leaves the contract unproved but not the other paths
        unexplored; its exception is raised at the end."""
        self.todo = [[]]
        err = None
        while self.todo:
            if self.paths >= self.max_paths or (
                    self.deadline and time.time() > self.deadline):
                self.truncated = True
                break
            pre = self.todo.pop()
            self.paths += 1
            X.reset()
            c = Ctx(self, pre)
            X._Ctx.cur = c
            try:
                body(c)
                self.completed += 1
            except PathAbort:
                self.ended += 1
            except Exception as e:
                err = err or e
                self.bad += 1
                if self.bad >= 40:
                    break
            finally:
                X._Ctx.cur = None
        if err is not None:
            raise err
        return self.obs
