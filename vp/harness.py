"""Runs the checks: solver queries, counterexample replay, evidence."""
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as np

from . import arr, loader, stubs, sym
from .sym import z3
from .arr import base, sa
from .sym import ENG, Sym, SymBool, Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = loader.REPO
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
NPROC = int(os.environ.get('VP_NPROC', '8'))


class Model:
    """Values of a satisfying assignment."""

    def __init__(self, m, zc):
        self.m, self.zc = m, zc

    def value(self, x):
        if type(x) is not Sym:
            return x
        return sym.zval(self.m.eval(self.zc.val(x), model_completion=True))

    def f(self, x):
        return float(self.value(x))

    def holds(self, b):
        return z3.is_true(self.m.eval(self.zc.bool(b), model_completion=True)) if isinstance(b, SymBool) else bool(b)

    def arr(self, a):
        return [self.f(v) for v in base(a).reshape(-1)]


GRACE = 60


def _stop(*_a):
    raise Stop()


class Stop(BaseException):
    """Enough violations."""


class Job:
    """One part of a check, run in a process of its own."""

    def __init__(self, name):
        self.name = name
        self.queries = 0
        self.solver_s = 0.0
        self.claims = 0
        self.paths = 0
        self.violations = []
        self.witnesses = []
        self.notes = []
        self.reached = 0
        self.encoded = {}
        self.loaders = []
        self.timeout = 120000

    # loading ---------------------------------------------------------------
    def loader(self, hooks=(), **overrides):
        ov = dict(stubs.scipy_overrides())
        ov.update(overrides.pop('overrides', {}))
        ld = loader.Loader(ov)
        ld.hooks.extend(hooks)
        self.loaders.append(ld)
        return ld

    # exploration -------------------------------------------------------------
    def explore(self, fn, assume=(), max_paths=4096):
        """All paths of fn; each is a Path."""
        n = 0
        for r, e, tr, un in ENG.explore(fn, assume, max_paths):
            n += 1
            self.paths += 1
            cut = ENG.cut
            yield Path(r, e, [a for a in assume if isinstance(a, SymBool)] + tr, un)
            if cut and not self.violations:
                raise Unsupported('many branches on unwritten memory')
        if not n:
            raise Unsupported('no feasible path: the assumptions are contradictory')

    # solver --------------------------------------------------------------------
    def query(self, conds, opts=None, retry=True):
        """Satisfiability of a conjunction: (z3 result, Model)."""
        zc = sym.Z3Ctx(**(opts or {}))
        fs = []
        for c in conds:
            if isinstance(c, SymBool):
                fs.append(zc.bool(c))
            elif isinstance(c, z3.ExprRef):
                fs.append(c)
            elif callable(c):
                fs.append(c(zc))
            elif not c:
                self.queries += 1
                return z3.unsat, None
        t0 = time.time()
        r = None
        for mk, to in ((lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver(), 20000), (z3.Solver, self.timeout),
                       (lambda: z3.Tactic('qfnra-nlsat').solver(), self.timeout), (z3.SimpleSolver, self.timeout)):
            try:
                s = mk()
                s.set('timeout', to)
                s.add(*zc.axioms)
                s.add(*fs)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown or not retry:
                break
        self.queries += 1
        self.solver_s += time.time() - t0
        if r == z3.sat:
            return r, Model(s.model(), zc)
        return r, None

    def prove(self, claims, path=(), case=None, what='', opts=None, strengthen=()):
        """Claims hold for all values satisfying the path conditions.

        case: Model -> list of replay cases; strengthen: extra conditions tried
        to get a clearer counterexample.
        """
        claims = list(claims) if isinstance(claims, (list, tuple)) else [claims]
        self.claims += len(claims)
        bad = [sym.snot(c) for c in claims if c is not True]
        conds = list(path)
        if not bad:
            self.queries += 0
            return True
        neg = sym.sor(*bad)
        if neg is False:
            return True
        if isinstance(neg, SymBool) and all(c is True or isinstance(c, SymBool) for c in conds):
            conds = sym.sliced([c for c in conds if c is not True], neg)
        r, m = self.query(conds + [neg], opts)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            raise Unsupported('solver gives no answer: %s' % what)
        if len(conds) < len([c for c in path if c is not True]):
            # values for the symbols of the other conditions as well
            r2, m2 = self.query(list(path) + [neg], opts, retry=False)
            if r2 == z3.unsat:
                return True
            if r2 == z3.sat:
                conds, m = list(path), m2
        for extra in strengthen:
            r2, m2 = self.query(conds + [neg] + list(extra), opts, retry=False)
            if r2 == z3.sat:
                m = m2
                break
        self.fail(case(m) if case else None, what)
        return False

    def same(self, pairs, path=(), case=None, what=''):
        """Pairs (got, want, description) of expressions with divisions are equal: one query over the cleared equations."""
        pairs = list(pairs)
        self.claims += len(pairs)
        eqs = []
        for g, w, t in pairs:
            if isinstance(g, float) and g != g or sym.is_junk(g):
                self.fail(case(self.query(list(path))[1]) if case else None, '%s: %s is not a number' % (what, t))
                return False
            eqs.append(sym.cleared_pair(g, w))
        conds = [c for c in path if c is not True]
        goal = sym.sor(*[sym.snot(sym.cmp('==', a, b)) for a, b in eqs])
        ctx = sym.sliced(conds, goal) if isinstance(goal, SymBool) else []
        r, m = self.query(ctx + [lambda zc: z3.Or(*[zc.val(a) != zc.val(b) for a, b in eqs])])
        if r == z3.unsat:
            return True
        for (a, b), (g, w, t) in zip(eqs, pairs):
            if not self.prove(sym.cmp('==', a, b), path, case, '%s: %s' % (what, t)):
                return False
        if r != z3.unknown:
            raise Unsupported('solver contradicts itself: %s' % what)
        return True

    def fail(self, cases, what):
        if cases is not None and not isinstance(cases, list):
            cases = [cases]
        self.violations.append({'what': what, 'job': self.name, 'cases': cases})
        if len(self.violations) >= 3:
            raise Stop()
        if len(self.violations) == 1 and multiprocessing.parent_process() is not None:
            # there is an answer: no need to look for more violations for long
            signal.signal(signal.SIGALRM, _stop)
            signal.alarm(GRACE)

    def require(self, cond, cases, what):
        """A condition without symbols."""
        self.claims += 1
        if not cond:
            self.fail(cases() if callable(cases) else cases, what)
        return bool(cond)

    def reach(self, path, case=None, what='', opts=None, extra=()):
        """The end of the path is reachable: vacuity guard (and witness for validation)."""
        r, m = self.query(list(path) + list(extra), opts)
        if r == z3.unsat:
            raise Unsupported('vacuous: %s cannot be reached' % what)
        if r == z3.sat:
            self.reached += 1
            if case is not None:
                c = case(m)
                self.witnesses.extend(c if isinstance(c, list) else [c])
        return m

    def equal_arrays(self, got, want, tol=1e-9, path=(), case=None, what='', lo=-1, hi=1, vectors=None):
        """Two arrays of polynomials agree to tol for all symbol values in [lo, hi].

        One query decides a combination of all elements (the largest
        coefficients of any difference); only if it is satisfiable the element
        with the largest difference gets a query of its own.
        """
        got, want = (arr.asarray(v) for v in (got, want))
        if got.shape != want.shape:
            self.fail(case(None, None) if case else None, '%s: shape %s instead of %s' % (what, got.shape, want.shape))
            return False
        gb, wb = (np.asarray(base(v), dtype=object) for v in (got, want))
        env = {}
        worst, wk = 0, None
        gf, wf = gb.reshape(-1), wb.reshape(-1)
        n = gf.size
        get = env.get
        for k in range(n):
            x, y = gf[k], wf[k]
            if x is y:
                continue
            p = x.p if type(x) is Sym else {(): sym.num(x)}
            q = y.p if type(y) is Sym else {(): sym.num(y)}
            t = 0
            for m, c in p.items():
                o = q.get(m)
                d = abs(c if o is None else c - o)
                if not d <= t:
                    t = d if d == d else float('inf')
                if not d <= get(m, 0):
                    env[m] = d if d == d else float('inf')
            if len(q) != len(p) or any(m not in p for m in q):
                for m, c in q.items():
                    if m not in p:
                        d = abs(c)
                        if not d <= t:
                            t = d if d == d else float('inf')
                        if not d <= get(m, 0):
                            env[m] = d if d == d else float('inf')
            if t > worst:
                worst, wk = t, k
        if wk is not None:
            wk = np.unravel_index(wk, gb.shape)
        self.claims += n
        if any(c == float('inf') for c in env.values()):
            self.fail(case(None, wk) if case else None, '%s: element %s is not a number' % (what, wk))
            return False
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        terms = []
        big = max(abs(lo), abs(hi))
        # coefficients are rounded up and equal ones share an unknown (a weaker claim, so still sound)
        q = 10 ** 8 / Fraction(tol)
        groups = {}
        for m, c in env.items():
            k = (-int(-Fraction(c) * q // 1), sum(abs(e) for _, e in m))
            groups[k] = groups.get(k, 0) + 1
        for i, ((c, deg), cnt) in enumerate(groups.items()):
            v = z3.Real('m!%d' % i)
            s.add(v >= 0, v <= sym.zq(Fraction(big) ** deg))
            terms.append(v * z3.Q(c * cnt, 1))
        s.add((z3.Sum(terms) if terms else z3.RealVal(0)) > z3.Q(10 ** 8, 1))
        r = s.check()
        self.queries += 1
        self.solver_s += time.time() - t0
        if r == z3.unsat:
            return True
        if r != z3.sat:
            raise Unsupported('solver gives no answer: %s' % what)
        # the worst element by itself
        order = sorted(((self._size(gb[k] - wb[k]), k) for k in np.ndindex(gb.shape)), reverse=True, key=lambda t: t[0])
        for _t, k in order[:50]:
            d = gb[k] - wb[k]
            at = {i for m in (d.p if type(d) is Sym else ()) for i, _ in m}
            box = [sym.sand(Sym({((i, 1),): 1}) >= lo, Sym({((i, 1),): 1}) <= hi) for i in at
                   if sym.ATOMS[i].kind in ('var', 'junk')]
            r, m = self.query(list(path) + box + [sym.snot(sym.close(d, 0, tol))])
            if r == z3.sat:
                for big in (0.1, 1e-3, 1e-5):
                    r2, m2 = self.query(list(path) + box + [sym.snot(sym.close(d, 0, big))], retry=False)
                    if r2 == z3.sat:
                        m = m2
                        break
                self.fail(case(m, k) if case else None, '%s: element %s differs by %r' % (what, k, d))
                return False
        raise Unsupported('solver cannot decide %s' % what)

    @staticmethod
    def _size(d):
        if type(d) is Sym:
            return float(max(abs(c) for c in d.p.values()))
        return float(abs(d))

    def result(self, error=None):
        enc = {}
        for ld in self.loaders:
            for m, f in ld.encoded.items():
                enc[m] = f
        return {'name': self.name, 'queries': self.queries, 'solver_s': self.solver_s + ENG.solver_time,
                'feas': ENG.feas_queries, 'decisions': ENG.decisions, 'claims': self.claims, 'paths': self.paths,
                'violations': self.violations, 'witnesses': self.witnesses[:4], 'notes': self.notes, 'reached': self.reached,
                'encoded': enc, 'error': error}


class Path:
    __slots__ = ('result', 'exc', 'conds', 'undef')

    def __init__(self, result, exc, conds, undef):
        self.result, self.exc, self.conds, self.undef = result, exc, conds, undef


def _run_job(args):
    name, fn, a, timeout = args
    sym._reset()
    ENG.reset()
    j = Job(name)
    err = None
    t0 = time.time()
    try:
        fn(j, *a)
    except Stop:
        pass
    except BaseException as e:  # noqa: reported as an error of the check
        err = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
    signal.alarm(0)
    r = j.result(err)
    r['wall'] = time.time() - t0
    return r


# --------------------------------------------------------------------------
# replay on the real code

class Scratch:
    """A scratch copy of the working tree, built on demand."""

    def __init__(self, build, edit=None):
        self.dir = tempfile.mkdtemp(prefix='vp_replay_')
        self.proc = None
        src = os.path.join(REPO, 'geotiepoints')
        ig = shutil.ignore_patterns('tests', '*.so', '*.c', '*.cpp', '__pycache__')
        shutil.copytree(src, os.path.join(self.dir, 'geotiepoints'), ignore=ig)
        if edit:
            edit(os.path.join(self.dir, 'geotiepoints'))
        if build:
            for f in os.listdir(REPO):
                p = os.path.join(REPO, f)
                if os.path.isfile(p) and not f.startswith('.'):
                    shutil.copy(p, self.dir)
            env = dict(os.environ, CFLAGS='-O0', USE_CYTHON='1')
            self.log = open(os.path.join(self.dir, 'build.log'), 'w')
            self.proc = subprocess.Popen([sys.executable, 'setup.py', 'build_ext', '--inplace', '-j', '4'], cwd=self.dir, env=env,
                                         stdout=self.log, stderr=subprocess.STDOUT)

    def ready(self):
        if self.proc is not None:
            rc = self.proc.wait()
            self.log.close()
            self.proc = None
            if rc:
                raise Unsupported('build of the working tree failed: ' + open(os.path.join(self.dir, 'build.log')).read()[-2000:])
        return self.dir

    def close(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def replay_cases(pid, cases, tree):
    """Runs the cases on the real code in tree; list of (violated, text)."""
    fd, path = tempfile.mkstemp(suffix='.json', prefix='vp_case_')
    with os.fdopen(fd, 'w') as f:
        json.dump(cases, f)
    out = path + '.out'
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), pid, '--replay-raw', path, out],
                           env=dict(os.environ, VP_TREE=tree), cwd=HERE, capture_output=True, text=True, timeout=600)
        if not os.path.exists(out):
            return None, (p.stdout + p.stderr)[-3000:], p.returncode
        with open(out) as f:
            return json.load(f), (p.stdout + p.stderr)[-3000:], p.returncode
    finally:
        for q in (path, out):
            if os.path.exists(q):
                os.unlink(q)


def known_findings(pid):
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                out.append(line[len('finding: property=%s ' % pid):])
    return out


def main(pid, mod, tier=None):
    t0 = time.time()
    tier = tier or TIER
    build = getattr(mod, 'BUILD', False)
    scratch = Scratch(build, getattr(mod, 'edit_scratch', None))
    try:
        return _main(pid, mod, tier, t0, scratch)
    finally:
        scratch.close()


def save_replay(pid, n, what, observed, case):
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, '%s-%d.json' % (pid, n))
    with open(rp, 'w') as f:
        json.dump({'property': pid, 'what': what, 'observed': observed, 'case': case,
                   'run': 'VP_TREE=<built tree> %s run.py %s --replay %s' % (sys.executable, pid, rp)}, f, indent=1)
    return rp


def _main(pid, mod, tier, t0, scratch):
    jobs = [(n, f, a, None) for n, f, a in mod.jobs(tier)]
    ctx = multiprocessing.get_context('fork')
    res = []
    deadline = None
    limit = t0 + (840 if tier == 'quick' else 86400)
    with ctx.Pool(min(NPROC, len(jobs)), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_run_job, jobs, chunksize=1)
        while len(res) < len(jobs):
            try:
                r = it.next(max((deadline or limit) - time.time(), 0.01))
            except multiprocessing.TimeoutError:
                break
            res.append(r)
            if r['violations'] and deadline is None and len(res) < len(jobs):
                cases = r['violations'][0]['cases'] or []
                rr = replay_cases(pid, cases, scratch.ready())[0] if cases else None
                if any(c[0] for c in rr or []):
                    # a confirmed violation: the remaining jobs get some time, no more
                    deadline = time.time() + GRACE
    errors = [(r['name'], r['error']) for r in res if r['error']]
    if len(res) < len(jobs):
        done = {r['name'] for r in res}
        errors.append(('harness', 'no answer in time: %s' % [n for n, _f, _a, _t in jobs if n not in done][:5]))
    violations = [v for r in res for v in r['violations']]
    witnesses = [w for r in res for w in r['witnesses']]
    status, lines = 0, []
    confirmed = []
    unconfirmed = []
    known = known_findings(pid)
    knownhit = []
    for v in violations:
        cases = v['cases'] or []
        rr, log, _rc = replay_cases(pid, cases, scratch.ready()) if cases else (None, 'no replay case', 0)
        hit = [c for c, r in zip(cases, rr or []) if r[0]]
        txt = [r[1] for r in (rr or []) if r[0]]
        if rr is None and cases and _rc < 0:
            hit, txt = cases[:1], ['the process was ended by signal %d' % -_rc]
        if not hit:
            unconfirmed.append((v, rr, log))
            continue
        key = hit[0].get('key') if isinstance(hit[0], dict) else None
        if key and key in known:
            knownhit.append((key, txt[0]))
            continue
        confirmed.append((v, save_replay(pid, len(confirmed), v['what'], txt[0], hit[0]), txt[0]))
        if len(confirmed) >= 3:
            break
    validated = 0
    if witnesses and not confirmed:
        rr, log, _rc = replay_cases(pid, witnesses, scratch.ready())
        if rr is None:
            errors.append(('witnesses', 'replay of witnesses failed: ' + log))
        else:
            for w, r in zip(witnesses, rr):
                if not r[0]:
                    validated += 1
                    continue
                # the real code breaks the property where the encoding does not: a violation if it does so by itself, too
                again, _log, _rc = replay_cases(pid, [w], scratch.ready())
                if again and again[0][0] and len(confirmed) < 3:
                    v = {'what': 'the validation of the encoding on the solver\'s models fails', 'job': 'witnesses', 'cases': [w]}
                    confirmed.append((v, save_replay(pid, len(confirmed), v['what'], again[0][1], w), again[0][1]))
                else:
                    errors.append(('witnesses', 'the encoding says the property holds, the real code disagrees: %s on %s' % (
                        r[1], json.dumps(w)[:500])))
    enc = {}
    for r in res:
        enc.update(r['encoded'])
    ev = {
        'property': pid, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': sum(r['paths'] for r in res),
            'transitions': sum(r['decisions'] for r in res),
            'traces_validated_against_impl': validated,
            'samples': (witnesses[:2] or [{'job': r['name'], 'paths': r['paths']} for r in res[:3]]),
            'explanation': 'states: end states of symbolic paths; transitions: branch decisions taken on symbolic conditions; '
                           'traces validated: solver models of reached ends that were run through the real code and agreed.',
            'functions_encoded': {k: sorted(set(v)) for k, v in sorted(enc.items())},
            'bounds': list(mod.BOUNDS) if not callable(mod.BOUNDS) else mod.BOUNDS(tier),
            'assertions_discharged': sum(r['claims'] for r in res) - len(violations),
            'solver_queries': sum(r['queries'] for r in res),
            'feasibility_queries': sum(r['feas'] for r in res),
            'solver_time_s': round(sum(r['solver_s'] for r in res), 3),
            'reachability_witnesses': sum(r['reached'] for r in res),
            'jobs': {r['name']: {'wall_s': round(r['wall'], 2), 'paths': r['paths'], 'queries': r['queries'],
                                 'assertions': r['claims']} for r in res},
            'notes': [n for r in res for n in r['notes']],
        },
        'assumptions': list(mod.ASSUMPTIONS),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(confirmed),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k, t in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for v, rp, txt in confirmed:
        print('  %s [%s]\n    real code: %s' % (v['what'], v['job'], txt))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if confirmed:
        return 1
    for v, rr, log in unconfirmed:
        print('ERROR: counterexample not reproduced: %s [%s]\n  cases: %s\n  replay: %s\n%s' % (
            v['what'], v['job'], json.dumps(v['cases'], default=str)[:1500], rr, log))
        status = 2
    for n, e in errors[:4]:
        status = 2
        print('ERROR in %s: %s' % (n, e))
        status = 2
    if not status:
        print('%s: held; %d paths, %d assertions, %d+%d queries, %.1f s solver, %d witnesses validated, %.1f s' % (
            pid, ev['coverage']['states'], ev['coverage']['assertions_discharged'], ev['coverage']['solver_queries'],
            ev['coverage']['feasibility_queries'], ev['coverage']['solver_time_s'], validated, time.time() - t0))
    return status
