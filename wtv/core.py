"""Contract framework: proof obligations + replay of refutations on the code.

Outcome policy (per property):
  * an obligation that is refuted (or not discharged) is never by itself
    reported as violated: its counter-model and a boundary-biased search are
    replayed on the real functions of /repo with the same postcondition;
  * a concrete failure of a postcondition on the real code is a violation;
  * a definite refutation that no concrete input reproduces is reported with
    the suffix  no-failing-input-found ;
  * a construct outside the verifier's subset / solver unknown leaves the
    obligation undischarged: the contract is then only bounded-checked, and
    the evidence says so.
"""
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

REPO = os.environ.get('WTV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """A postcondition failed on the real code."""


class Known(Exception):
    """failure that may be listed in KNOWN_FINDINGS.txt under `tag`"""

    def __init__(self, tag, name, text=''):
        Exception.__init__(self, '%s: %s' % (name, text))
        self.tag = tag


class Skip(Exception):
    """The sampled values are outside the precondition."""


class Contract:
    def __init__(self, name, functions, body=None, sample=None,
                 concrete=None, n=(40, 400), check_div=False,
                 max_paths=600, timeout=8000, min_obligations=1,
                 bounded=None, assumptions=(), optional=False,
                 from_model=None, deadline=None, weak=False):
        self.name, self.functions = name, list(functions)
        self.body, self.sample, self.concrete = body, sample, concrete
        self.n = n
        self.check_div, self.max_paths = check_div, max_paths
        self.timeout = timeout
        self.min_obligations = min_obligations
        self.bounded = bounded      # text: bound of a bounded obligation
        self.assumptions = list(assumptions)
        self.from_model = from_model
        self.deadline = deadline
        # an induction over the loop structure as it is written: a failed
        # obligation counts only when it is reproduced on the real code
        self.weak = weak


def approx(a, b, rtol=1e-6, atol=0., what=''):
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation('%s: shape %s != %s' % (what, a.shape, b.shape))
    sc = np.maximum(np.abs(a), np.abs(b))
    ok = np.abs(a - b) <= rtol * sc + atol
    ok |= (a == b)
    if not np.all(ok):
        k = np.unravel_index(np.argmin(ok), ok.shape) if ok.shape else ()
        raise Violation('%s: got %r, expected %r%s' % (
            what, a[k].item() if ok.shape else a.item(),
            b[k].item() if ok.shape else b.item(),
            ' at index %s' % (tuple(int(q) for q in k),) if k else ''))


def jsonable(v):
    import numpy as np
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist())
    if isinstance(v, np.generic):
        return jsonable(v.item())
    if isinstance(v, complex):
        return {'re': v.real, 'im': v.imag}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)


class Runner:
    def __init__(self, prop, contracts, assumptions=(), title=''):
        self.prop, self.contracts = prop, contracts
        self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.budget = 700 if self.tier == 'quick' else 3000
        self.viol = []
        self.report = []
        self.harness_errors = []
        self.known = {}

    # ------------------------------------------------------------------
    # Every contract runs in two child processes, one for the proof and one
    # for the run-time contract, so that a solver or a program that does not
    # return can be ended without losing the rest of the check.
    def run(self):
        from multiprocessing import connection
        from . import engine, expr, twin            # noqa: before the fork
        jobs = [_Job(self, k, c) for k, c in enumerate(self.contracts)]
        todo, active = list(jobs), []
        workers = int(os.environ.get('WTV_JOBS') or
                      max(1, min(8, os.cpu_count() or 1)))
        while todo or active:
            while todo and len(active) < workers:
                active.append(todo.pop(0))
                active[-1].start()
                if active[-1].phase == 'done':
                    active.pop()
            connection.wait([x.conn for x in active], timeout=.5)
            for x in list(active):
                if x.poll():
                    active.remove(x)
        for x in jobs:
            self.report.append(x.rep)
            if x.viol:
                self.viol.append(x.viol)
            self.known.update(x.known)
            self.harness_errors += x.errors
        return self.finish()

    # ------------------------------------------------------------------
    def prove(self, c, send):
        """child process: discharge the obligations of a contract"""
        from . import engine as G
        from . import expr as X
        d = {}
        dl = time.time() + (c.deadline or (
            240 if self.tier == 'quick' else 900))
        dl = min(dl, self.t0 + self.budget)
        ex = G.Explorer(timeout=c.timeout, max_paths=c.max_paths,
                        check_div=c.check_div, deadline=dl)
        ex.add = lambda o: send(('ob', (o.name, o.status, o.backend, o.time,
                                        jsonable(o.env), o.detail, o.path)))
        try:
            ex.run(c.body)
            status = 'truncated' if ex.truncated else 'explored'
        except X.Unsupported as e:
            status = 'outside-subset: %s' % str(e)[:200]
        except (X.TooBig, RecursionError):
            status = 'outside-subset: expression too large'
            d['trace'] = traceback.format_exc()[-1200:]
        except (ZeroDivisionError, ValueError, IndexError,
                AssertionError) as e:
            status = 'code-raised: %s: %s' % (type(e).__name__, e)
            d['trace'] = traceback.format_exc()[-1200:]
        except Exception as e:
            status = 'outside-subset: %s: %s' % (
                type(e).__name__, str(e)[:200])
            d['trace'] = traceback.format_exc()[-1200:]
        S = G.STATS
        d.update(status=status, paths=ex.paths, paths_completed=ex.completed,
                 solver_s=round(S['z3_time'] + S['cvc5_time'] +
                                S['alg_time'], 3),
                 solver_calls=S['z3_calls'] + S['cvc5_calls'])
        send(('end', d))

    def execute(self, c, refuted, send):
        """child process: run-time contract on the real code"""
        rng = random.Random('%s|%s|%d' % (self.prop, c.name, self.seed))
        samples, evals, found, k = [], 0, None, 0
        cands = []
        for n, o in enumerate(refuted[:20]):
            if o.env:
                v = self.model_vals(c, o.env, rng)
                if v is not None:
                    cands.append((v, n))
        n = c.n[0] if self.tier == 'quick' else c.n[1]
        if refuted:
            n = max(n * 4, n + 200)
        tl = time.time() + (120 if self.tier == 'quick' else 600)
        for v, o in cands:
            evals += 1
            send(('try', jsonable(v)))
            m = self.try_concrete(c, v)
            if m:
                found = (jsonable(v), m, o)
                break
        while found is None and k < n and time.time() < tl and \
                c.sample is not None:
            k += 1
            try:
                v = c.sample(rng)
            except Skip:
                continue
            if v is None:
                continue
            evals += 1
            if len(samples) < 2:
                samples.append(jsonable(v))
            send(('try', jsonable(v)))
            m = self.try_concrete(c, v)
            if m:
                found = (jsonable(v), m, 0 if refuted else None)
        send(('end', dict(evals=evals, samples=samples, found=found,
                          known=self.known, errors=self.harness_errors)))

    def model_vals(self, c, env, rng):
        try:
            if c.from_model is not None:
                return c.from_model(dict(env), rng)
            if c.sample is None:
                return None
            v = c.sample(rng)
            for k in v:
                if k in env:
                    v[k] = env[k]
            return v
        except Exception:
            return None

    def try_concrete(self, c, v):
        try:
            c.concrete(v)
        except Violation as e:
            return str(e)
        except Known as e:
            t = known_findings().get((self.prop, e.tag))
            if t is None:
                return str(e)
            self.known[e.tag] = t
            return None
        except Skip:
            return None
        except Exception as e:
            # an exception raised inside the code under test on inputs that
            # satisfy the precondition breaks the contract; one raised by
            # the harness itself (e.g. a renamed helper) does not
            tb = traceback.extract_tb(e.__traceback__)
            here = [f for f in tb if f.filename.startswith(
                os.path.join(REPO, 'wake_t') + os.sep)]
            if here and not tb[-1].filename.startswith(VERIF):
                return 'raised %s: %s (in %s:%s)' % (
                    type(e).__name__, str(e)[:200],
                    os.path.relpath(here[-1].filename, REPO),
                    here[-1].name)
            self.harness_errors.append('%s: %s: %s' % (
                c.name, type(e).__name__, str(e)[:200]))
            if os.environ.get('WTV_DEBUG'):
                traceback.print_exc()
            return None
        return None

    def write_replay(self, c, vals, msg, o, status):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256((c.name + msg).encode()).hexdigest()[:8]
        p = os.path.join(d, '%s-%s.json' % (self.prop, h))
        with open(p, 'w') as f:
            json.dump({
                'property': self.prop, 'contract': c.name,
                'functions': c.functions, 'message': msg,
                'inputs': jsonable(vals),
                'failed_obligation': None if o is None else {
                    'name': o.name, 'detail': o.detail, 'path': o.path,
                    'counter_model': jsonable(o.env),
                    'backend': o.backend},
                'verifier_status': status,
                'replay_cmd': './check replay %s' % p}, f, indent=1)
        return p

    # ------------------------------------------------------------------
    def finish(self):
        proof = [r for r in self.report if r.get('obligations') and
                 not r.get('bounded')]
        bnd = [r for r in self.report if r.get('obligations') and
               r.get('bounded')]
        ob = sum(r['obligations'] for r in proof)
        di = sum(r['discharged'] for r in proof)
        fun = sorted({f for r in self.report for f in r['functions']})
        proved_f = sorted({f for r in proof
                           if r['status'] == 'explored' and
                           r['obligations'] == r['discharged']
                           for f in r['functions']})
        ev = sum(r.get('runtime_contract_evaluations', 0)
                 for r in self.report)
        cov = {
            'obligations': ob, 'discharged': di,
            'checker_cmd': './check %s' % self.prop,
            'trusted_base': [
                'wtv symbolic twin (AST extraction of the current source, '
                'numpy/math/scipy.constants shims)',
                'z3 5.3.2, cvc5, wtv rational-function normal form',
                'CPython 3.12 executing the extracted statements',
                'floating point treated as exact real arithmetic in proofs'],
            'functions_under_contract': fun,
            'functions_fully_discharged': proved_f,
            'solver_s': round(sum(r.get('solver_s', 0)
                                  for r in self.report), 2),
            'bounded_obligations': sum(r['obligations'] for r in bnd),
            'bounded_discharged': sum(r['discharged'] for r in bnd),
            'runtime_contract_evaluations': ev,
            'contracts': self.report,
        }
        bad = [r for r in self.report
               if r.get('machinery_error') or
               (r.get('status') not in ('explored', 'no-symbolic-part'))]
        cov['contracts_not_proved_this_run'] = [r['contract'] for r in bad]
        cov['harness_errors'] = self.harness_errors[:20]
        if self.harness_errors:
            print('harness errors:', len(self.harness_errors),
                  self.harness_errors[0])
        ass = self.assumptions + [
            a for c in self.contracts for a in c.assumptions]
        lvl = LEVELS.get(self.prop, 'proof')
        out = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
               'level': lvl, 'coverage': cov,
               'assumptions': sorted(set(ass)),
               'wall_s': round(time.time() - self.t0, 2),
               'violations': len(self.viol)}
        if lvl != 'proof':
            cov['explanation'] = (
                'bounded: no unbounded obligation is claimed for this '
                'property; see contracts[].bounded')
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(out, f, indent=1)
        for r in self.report:
            print('%-52s %-12s ob %4d  proved %4d  runs %4d  %.1fs%s' % (
                r['contract'][:52], (r.get('status') or 'ERROR')[:60],
                r['obligations'], r['discharged'],
                r.get('runtime_contract_evaluations', 0),
                r.get('proof_wall_s', 0),
                '  [bounded]' if r.get('bounded') else ''))
            if r.get('machinery_error'):
                print('   machinery error:', r['machinery_error'])
        for t in sorted(self.known):
            print('KNOWN-FINDING: property=%s %s' % (self.prop,
                                                     self.known[t]))
        # replayed violations first; one line per contract
        self.viol.sort(key=lambda v: v[1])
        for path, nofail, msg in self.viol:
            print('  ' + msg[:300])
            print('VIOLATION property=%s replay=%s%s' % (
                self.prop, path, ' no-failing-input-found' if nofail else ''))
        if not self.viol:
            print('OK property=%s obligations=%d discharged=%d '
                  'bounded=%d/%d runtime=%d' % (
                      self.prop, ob, di, cov['bounded_discharged'],
                      cov['bounded_obligations'], ev))
        return 1 if self.viol else 0


class _Ob:
    def __init__(self, t):
        (self.name, self.status, self.backend, self.time, self.env,
         self.detail, self.path) = t


class _Job:
    """one contract: proof, then run-time contract, each in a child"""
    HANG = 250      # s without the answer of one run of the code

    def __init__(self, runner, k, c):
        self.r, self.k, self.c = runner, k, c
        self.rep = {'contract': c.name, 'functions': c.functions,
                    'obligations': 0, 'discharged': 0}
        self.obs, self.end, self.viol = [], None, None
        self.known, self.errors = {}, []
        self.phase = None
        self.last = None
        self.conn = None

    def fork(self, f, *a):
        import multiprocessing as mp
        rd, wr = mp.Pipe(duplex=False)
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                rd.close()
                f(self.c, *a, wr.send)
            except BaseException as e:
                code = 3
                try:
                    wr.send(('error', ''.join(
                        traceback.format_exception_only(type(e), e)).strip(),
                        traceback.format_exc()[-1500:]))
                except BaseException:
                    pass
            finally:
                try:
                    wr.close()
                    sys.stdout.flush()
                    sys.stderr.flush()
                finally:
                    os._exit(code)
        wr.close()
        self.conn, self.end, self.t = rd, None, time.time()

    def start(self):
        c, r = self.c, self.r
        if c.body is None:
            return self.after_proof('no-symbolic-part')
        self.phase = 'proof'
        dl = c.deadline or (240 if r.tier == 'quick' else 900)
        self.kill_at = min(time.time() + dl, r.t0 + r.budget) + 20
        self.fork(r.prove)

    def poll(self):
        """True when the contract is done"""
        killed = eof = False
        try:
            while self.conn.poll():
                m = self.conn.recv()
                if m[0] == 'ob':
                    self.obs.append(_Ob(m[1]))
                elif m[0] == 'try':
                    self.last, self.t = m[1], time.time()
                elif m[0] == 'end':
                    self.end = m[1]
                elif m[0] == 'error':
                    self.rep['machinery_error'] = m[1]
                    self.rep['trace'] = m[2]
        except (EOFError, OSError):
            eof = True
        now = time.time()
        if not eof:
            if self.phase == 'proof':
                killed = now > self.kill_at
            else:
                killed = self.end is None and self.last is not None and \
                    now - self.t > self.HANG
            if not killed:
                return False
            import signal
            os.kill(self.pid, signal.SIGKILL)
        self.conn.close()
        os.waitpid(self.pid, 0)
        if self.phase == 'proof':
            st = 'truncated: no answer of the solver' if killed else \
                'outside-subset: the verifier stopped'
            if self.end:
                st = self.end.pop('status')
                self.rep.update(self.end)
            self.after_proof(st)
            return self.phase == 'done'
        self.after_runs(killed)
        return True

    def after_proof(self, status):
        c, obs = self.c, self.obs
        for o in obs:
            # a model of an uninterpreted aggregate is no refutation of code
            # that computes the same aggregate in another way
            if o.status == 'refuted' and (c.weak or 'agg_' in o.detail):
                o.status = 'weak'
        refuted = [o for o in obs if o.status == 'refuted']
        unk = [o for o in obs if o.status in ('unknown', 'weak')]
        proved = [o for o in obs if o.status == 'proved']
        if c.body is not None and status == 'explored' and \
                len(obs) < c.min_obligations and not refuted:
            status = 'vacuous'
        rep = self.rep
        rep.update(status=status, obligations=len(obs),
                   discharged=len(proved), refuted=len(refuted),
                   unknown=len(unk),
                   backends=_count(o.backend for o in proved),
                   bounded=c.bounded)
        if c.body is not None:
            rep['proof_wall_s'] = round(time.time() - self.t, 2)
        rep['obligation_names'] = sorted(_count(o.name for o in obs).items())
        if unk or refuted:
            rep['not_discharged'] = [
                {'name': o.name, 'status': o.status, 'env': o.env,
                 'detail': o.detail[:600], 'path': o.path}
                for o in (refuted + unk)[:12]]
        self.refuted, self.status = refuted, status
        if c.concrete is None:
            self.evals(0, [], None)
            self.phase = 'done'
            return
        self.phase = 'runs'
        self.fork(self.r.execute, refuted)

    def after_runs(self, killed):
        e = self.end or dict(evals=0, samples=[], found=None, known={},
                             errors=[])
        self.known, self.errors = e['known'], e['errors']
        found = e['found']
        if killed:
            found = (self.last, 'did not return within %d s' % self.HANG,
                     0 if self.refuted else None)
        elif self.end is None and self.last is not None and \
                not self.rep.get('machinery_error'):
            self.errors.append('%s: the run-time contract stopped' %
                               self.c.name)
        self.evals(e['evals'], e['samples'], found)

    def evals(self, n, samples, found):
        rep, c = self.rep, self.c
        rep['runtime_contract_evaluations'] = n
        if samples:
            rep['runtime_samples'] = _short(samples)
        if found:
            v, m, o = found
            o = None if o is None else self.refuted[o]
            path = self.r.write_replay(c, v, m, o, self.status)
            self.viol = (path, False, c.name + ': ' + m)
            rep['violation'] = m
        elif self.refuted:
            o = self.refuted[0]
            path = self.r.write_replay(c, None, 'obligation refuted: ' +
                                       o.name, o, self.status)
            self.viol = (path, True, c.name + ': ' + o.name)
            rep['violation'] = 'refuted obligation ' + o.name


def known_findings():
    """lines 'finding: property=<id> tag=<tag> <what fails>'"""
    d = {}
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
            for ln in f:
                w = ln.strip().split(' ', 3)
                if len(w) == 4 and w[0] == 'finding:' and \
                        w[1].startswith('property=') and \
                        w[2].startswith('tag='):
                    d[w[1][9:], w[2][4:]] = w[3]
    except OSError:
        pass
    return d


LEVELS = {}


def _count(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def _short(v, n=400):
    s = json.dumps(v)
    return v if len(s) < n else s[:n]
