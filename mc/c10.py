"""C10: the transformers run on a joblib backend whose workers are real threads under
a controlled scheduler; stub estimators with scheduling points between their steps make
every interleaving (and every completion order, every failing trial) of the workers
explorable, and the package code itself is preempted at every line.  Real estimators,
sizes, element types and the real backends are enumerated besides."""
import copy
import itertools

import joblib
import numpy as np
from joblib._parallel_backends import ParallelBackendBase
from sklearn.base import BaseEstimator

from mc import core, data, est, ref, sched
from robuststats.estimation import base, structured as struct

BOUNDS = {
    'quick': '2 trials: all interleavings of 4-step stub estimators; 3-4 trials on 2-4 workers: preemption bound 2 on the steps, all completion orders; '
             'line-level preemption bound 1; failing trial at every position (12 exception types; 5 kinds of unusable data with each estimator); 1..7, 130 and 1003 trials; 13 estimators x 5 element types; '
             'sequential, threading and loky backends with 1, 2, 3, -1 workers',
    'thorough': 'preemption bound 4 on the steps (3-5 trials), line-level bound 2 and opcode-level bound 1',
}
RULE = 'a state is a complete schedule or a configuration'
LIMIT = {'quick': 400., 'thorough': 3400.}
CUR = None          # the Run in progress


def point():
    if CUR is not None:
        CUR.point()


class Backend(ParallelBackendBase):
    """joblib backend running its tasks under the scheduler"""
    supports_retrieve_callback = False
    uses_threads = True
    supports_sharedmem = True
    default_n_jobs = 2

    def effective_n_jobs(self, n_jobs):
        return 8 if n_jobs is None or n_jobs < 0 else n_jobs

    def submit(self, func, callback=None):
        job = dict(done=False)
        run = CUR

        def body():
            try:
                job['result'] = func()
            except BaseException as e:
                job['error'] = e
            job['done'] = True
            run.order.append(job['index'])
            if callback is not None:
                with sched.quiet(run):
                    callback(job)
        job['index'] = len(run.threads)
        run.spawn(body)
        return job

    apply_async = submit

    def retrieve_result(self, job, timeout=None):
        if not job['done']:
            CUR.run()
        if 'error' in job:
            raise job['error']
        return job['result']


joblib.register_parallel_backend('mc', Backend)


class Stub(BaseEstimator):
    """keeps intermediate results on itself, like a real estimator"""

    def __init__(self, gain=1., fail=None, kind='real', steps=3, error=ZeroDivisionError):
        self.gain, self.fail, self.kind, self.steps, self.error = gain, fail, kind, steps, error
        self.count_ = 0

    def fit(self, X, y=None, shift=0.):
        point()
        self.count_ += 1
        self.data_ = X
        point()
        self.sum_ = ref.scm(np.asarray(self.data_))*self.gain
        if self.fail is not None and np.real(self.data_[0, 0]) == self.fail:
            raise self.error('trial %g fails' % self.fail)
        if self.steps > 2:
            point()
        self.covariance_ = self.sum_ + shift + (1j if self.kind == 'complex' or self.kind == 'mixed' and np.real(self.data_[0, 0]) % 2 else 0)*np.arange(len(self.sum_))*len(self.data_) + 100*(self.count_ - 1)
        if self.steps > 3:
            point()
        return self

    def fit_transform(self, X, y=None, **kw):
        self.fit(X, **kw)
        if self.kind == 'scalar':
            return self.covariance_[0, 0]
        if self.kind == 'complex scalar':
            return self.covariance_[0, 0] + 1j*self.covariance_[0, 1]
        if self.kind == 'pair':
            return [self.covariance_, self.covariance_[0]]
        return self.covariance_


def trials(n, N=3, p=2, cplx=False):
    X = np.stack([data.gauss(N, p, cplx, i) for i in range(n)])
    X[:, 0, 0] = np.arange(n)
    return X


def expected(estimator, X, features=False, **kw):
    out = []
    for x in X:
        e = copy.deepcopy(estimator)
        if features:
            out.append(e.fit_transform(x, **kw))
        else:
            out.append(e.fit(x, **kw).covariance_)
    return out


def compare(ctx, got, want, features):
    if features:
        ctx.ok(len(got) == len(want), 'number of features', len(got), len(want))
        for i, w in enumerate(want):
            w = w if isinstance(w, list) else [w]
            parts = got[i].export()
            parts = parts if isinstance(parts, list) else [parts]
            ctx.ok(len(parts) == len(w), 'number of components')
            for a, b in zip(parts, w):
                b = np.atleast_1d(b)
                a = np.asarray(a).reshape(b.shape)
                ctx.ok(a.dtype == b.dtype, 'element type of trial %d' % i, a.dtype, b.dtype)
                ctx.close(a, b, 1e-10, 'features of trial %d' % i)
    else:
        got = np.asarray(got)
        ctx.ok(got.shape == (len(want),) + want[0].shape, 'shape of the result', got.shape)
        ctx.ok(np.iscomplexobj(got) == any(np.iscomplexobj(w) for w in want), 'element type', got.dtype)
        for i, w in enumerate(want):
            ctx.close(got[i], w.astype(got.dtype), 1e-10 if w.dtype != np.float32 else 1e-5, 'estimate of trial %d' % i)
            ctx.ok(np.can_cast(w.dtype, got.dtype, 'same_kind') and got.dtype.itemsize >= w.dtype.itemsize, 'precision of the result', got.dtype)
    ctx.see(*want[:2])


def transform(T, X, features, kw):
    return T.transform(X) if features else T.transform(X, **kw)


def state(e):
    return {k: (v.tobytes() if isinstance(v, np.ndarray) else repr(v)) for k, v in vars(e).items() if not callable(v)}


def once(ctx, n, jobs, features, stub, kw, prefix, grain, want, fail):
    global CUR
    cls = base.FeaturesEstimation if features else base.CovariancesEstimation
    e = Stub(**stub)
    X = trials(n)
    x0, s0 = X.copy(), state(e)
    CUR = run = sched.Run(prefix, workers=jobs, grain=grain)
    run.fifo = True
    run.order = []
    try:
        with joblib.parallel_config(backend='mc'):
            try:
                got = transform(cls(e, n_jobs=jobs), X, features, kw)
                error = None
            except (sched.Diverged, sched.Stuck):
                raise
            except Exception as ex:
                got, error = None, ex
        # a run that fails early leaves threads behind: let them finish
        if not all(t.done for t in run.threads) and fail is not None:
            run.run() if not any(t.started and not t.done for t in run.threads) else None
    finally:
        CUR = None
    ctx.step(n)
    if fail is None:
        ctx.ok(error is None, 'raised %r' % (error,))
        compare(ctx, got, want, features)
    else:
        ctx.ok(error is not None, 'the failing trial is not reported', got)
        ctx.ok('trial %g fails' % fail in str(error) or isinstance(error, ZeroDivisionError), 'another error is reported', str(error))
    ctx.ok(state(e) == s0, 'the wrapped estimator was changed', state(e), s0)
    ctx.same(X, x0, 'the data were changed')
    return run


def schedules(ctx, tag, n, jobs, features, stub, kw, grain, bound, fail=None):
    want = None if fail is not None else expected(Stub(**stub), trials(n), features, **kw)
    orders = set()

    def one(prefix):
        label = '%s schedule %s' % (tag, ''.join(map(str, prefix)) or '-')
        box = []

        def body():
            box.append(once(ctx, n, jobs, features, stub, kw, prefix, grain, want, fail))
        ctx.run(label, body)
        ctx.trace()
        if not box:
            raise StopIteration
        orders.add(tuple(box[0].order))
        return box[0]
    if ctx.only is not None:
        k = ctx.only.rsplit(' ', 1)
        if ctx.only.startswith(tag + ' schedule '):
            one([int(c) for c in k[1]] if k[1] != '-' else [])
        return
    try:
        # same schedule twice: same points
        a, b = one([]), one([])
        ctx.ok(a.points == b.points, 'the first schedule is not reproducible')
        N, complete = sched.explore(one, bound)
    except StopIteration:
        return
    ctx.notes['schedules'] = ctx.notes.get('schedules', 0) + N
    ctx.notes['completion_orders'] = ctx.notes.get('completion_orders', 0) + len(orders)


def plan(tier):
    th = tier == 'thorough'
    units = [('real', i) for i in (10, 9)]
    for f in (False, True):
        units += [('steps', f, 2, 2, 4, 99, None), ('steps', f, 3, 2, 3, 4 if th else 2, None),
                  ('steps', f, 3, 3, 3, 4 if th else 2, None), ('steps', f, 4, 2, 2, 3 if th else 2, None),
                  ('steps', f, 4, 4, 2, 3 if th else 1, None)]
        if th:
            units.append(('steps', f, 5, 3, 2, 2, None))
            units.append(('steps', f, 2, 2, 2, 1, 'opcode'))
            units.append(('steps', f, 2, 2, 2, 2, 'line'))
        units.append(('steps', f, 3, 2, 2, 1, 'line'))
        for n, jobs in ((1, 2), (2, 2), (3, 2), (4, 3)):
            for bad in range(n):
                units.append(('fail', f, n, jobs, bad))
    for i in sorted(set(range(len(REAL))) - {9, 10}):
        units.append(('real', i))
    for n in (1, 2, 3, 4, 5, 7, 130, 1003):
        units.append(('count', n))
    for jobs in (1, 2, 3, -1):
        units.append(('threading', jobs))
    for jobs in (2, 3):
        units.append(('loky', jobs))
    units.append(('types',))
    return units


ERRORS = (ValueError, TypeError, np.linalg.LinAlgError, RuntimeError, KeyError, AttributeError, FloatingPointError, NotImplementedError,
          MemoryError, IndexError, OSError, AssertionError)


def bad_trial(ctx, e, X, bad, how, jobs, backend, features):
    """a trial the estimator cannot handle fails as it does alone"""
    X = X.copy()
    if how == 'nan':
        X[bad, 1, 0] = np.nan
    elif how == 'inf':
        X[bad, 0, -1] = np.inf
    elif how == 'zero row':
        X[bad, 0] = 0
    elif how == 'zero':
        X[bad] = 0
    else:
        X[bad] = X[bad, :1]
    f = copy.deepcopy(e)
    try:
        want = f.fit_transform(X[bad]) if features else f.fit(X[bad]).covariance_
        error = None
    except Exception as ex:
        error = ex
    cls = base.FeaturesEstimation if features else base.CovariancesEstimation
    T = cls(e, n_jobs=jobs)

    def go():
        with joblib.parallel_config(backend=backend):
            return T.transform(X)
    ctx.step(len(X))
    if error is not None:
        ctx.raises(go, 'trial %d (%s)' % (bad, how), type(error))
        ctx.see(how, type(error).__name__)
        return
    got = go()
    got = np.asarray(got[bad].export() if features else got[bad])
    ctx.ok(np.allclose(got, want, rtol=1e-9, atol=0, equal_nan=True), 'estimate of the odd trial %d (%s)' % (bad, how), got, want)
    ctx.see(got)


REAL = [lambda k=k, c=c: (est.make(k, est.PARS[k][0], c), c, 3) for c in (False, True) for k in ('tyler', 'student', 'huber')] + [
    lambda: (base.RealEmpiricalCovariance(), False, 3), lambda: (base.RealEmpiricalCovariance(assume_centered=True), False, 2),
    lambda: (base.ComplexEmpiricalCovariance(), True, 3),
    lambda: (struct.KroneckerEllipticalMM(2, 2), True, 4), lambda: (struct.KroneckerStudent(2, 2, 3), True, 4),
    lambda: (est.make('tyler', None, False, normalisation='trace', iter_max=4), False, 5),
    lambda: (est.make('tyler', None, True, normalisation='determinant', tol=1e-9), True, 2)]


def plain(ctx, e, X, jobs, features, kw, backend):
    want = expected(e, X, features, **kw)
    cls = base.FeaturesEstimation if features else base.CovariancesEstimation
    T = cls(e, n_jobs=jobs)
    x0, s0 = X.copy(), state(e)
    ctx.ok(T.fit(X) is T, 'fit does not return the transformer')
    if backend:
        with joblib.parallel_config(backend=backend):
            got = transform(T, X, features, kw)
            again = transform(T, X, features, kw)
    else:
        got = transform(T, X, features, kw)
        again = got if len(X) > 200 else transform(T, X, features, kw)
    ctx.step(2*len(X))
    compare(ctx, got, want, features)
    if again is not got:
        compare(ctx, again, want, features)
    ctx.ok(state(e) == s0, 'the wrapped estimator was changed')
    ctx.same(X, x0, 'the data were changed')
    ctx.trace()


def run_unit(ctx, what, *u):
    if what == 'steps':
        features, n, jobs, steps, bound, grain = u
        kw = {} if features else dict(shift=2.5)
        tag = '%s %d trials %d workers %d steps %s bound %d' % (
            'features' if features else 'covariances', n, jobs, steps, grain or 'steps', bound)
        schedules(ctx, tag, n, jobs, features, dict(steps=steps, kind='pair' if features else 'real'), kw, grain, bound)
    elif what == 'fail':
        features, n, jobs, bad = u
        tag = '%s %d trials %d workers, trial %d fails' % ('features' if features else 'covariances', n, jobs, bad)
        schedules(ctx, tag, n, jobs, features, dict(steps=2, fail=bad), {}, None, 2, fail=bad)
        for backend in ('sequential', 'threading'):
            def real():
                cls = base.FeaturesEstimation if features else base.CovariancesEstimation
                with joblib.parallel_config(backend=backend):
                    ctx.raises(lambda: cls(Stub(fail=bad), n_jobs=jobs).transform(trials(n)), 'failing trial', ZeroDivisionError)
                ctx.raises(lambda: cls(Stub(fail=bad), n_jobs=1).transform(trials(n)), 'failing trial', ZeroDivisionError)
                for err in ERRORS:
                    for k in (1, jobs):
                        with joblib.parallel_config(backend=backend):
                            ctx.raises(lambda: cls(Stub(fail=bad, error=err), n_jobs=k).transform(trials(n)), 'failing trial, %s' % err.__name__, err)
                        ctx.step()
            ctx.run('%s %s' % (tag, backend), real)
    elif what == 'real':
        e, cplx, p = REAL[u[0]]()
        slow = isinstance(e, (struct.KroneckerStudent, struct.KroneckerEllipticalMM))
        for n in (1, 2, 5) if not slow or ctx.tier == 'thorough' else (1, 3):
            X = np.stack([data.gauss(4*p + 3, p, cplx, i, ('corr', 'heavy')[i % 2]) for i in range(n)])
            for features in (False, True):
                for jobs, backend in ((1, None), (3, 'threading'), (2, 'threading'))[:3 if not slow or ctx.tier == 'thorough' else 2]:
                    ctx.run('%s %d trials features=%s %s %s' % (e, n, features, jobs, backend), plain, ctx, e, X, jobs, features, {}, backend)
                if not features and 'init' in e.fit.__code__.co_varnames and not isinstance(e, struct.KroneckerStudent):
                    ctx.run('%s %d trials with start' % (e, n), plain, ctx, e, X, 2, features,
                            dict(init=data.spd(p, cplx, 'dense')), 'threading')
                    ctx.run('%s %d trials with start, sequential' % (e, n), plain, ctx, e, X, 1, features,
                            dict(init=data.spd(p, cplx, 'dense')), None)
            if n == 3 or n == 5:
                for bad, how in itertools.product(range(0, n, 2), ('nan', 'inf', 'zero row', 'zero', 'copies')):
                    for features in (False, True):
                        for jobs, backend in ((1, 'sequential'), (2, 'threading')):
                            ctx.run('%s %d trials, trial %d %s features=%s %d' % (e, n, bad, how, features, jobs), bad_trial, ctx, e, X, bad, how, jobs, backend, features)
            # an estimator that already was fitted
            f = copy.deepcopy(e).fit(X[0][::-1]*2)
            ctx.run('%s fitted before %d' % (e, n), plain, ctx, f, X, 2, False, {}, 'threading')
    elif what == 'count':
        n, = u
        for features in (False, True):
            for kind in ('real', 'complex', 'scalar', 'complex scalar', 'pair') if features else ('real', 'complex', 'mixed'):
                for jobs, backend in ((1, None), (2, 'threading')):
                    ctx.run('count %d %s %s %s' % (n, kind, features, jobs), plain, ctx, Stub(kind=kind), trials(n), jobs, features, {}, backend)
            if n < 10 and not features:
                for jobs, backend in ((1, None), (2, 'threading'), (None, 'threading'), (-1, 'threading'), (-2, 'threading'), (-1, 'sequential'), (40, 'threading')):
                    ctx.run('count %d options %s %s' % (n, jobs, backend), plain, ctx, Stub(), trials(n), jobs, features, dict(shift=7.5), backend)
    elif what in ('threading', 'loky'):
        jobs, = u
        for n in (1, 2, 5) if what == 'loky' else (1, 2, 3, 5, 9, 40):
            for features in (False, True):
                for kind in ('real', 'complex'):
                    ctx.run('%s %d workers %d trials %s %s' % (what, jobs, n, kind, features), plain, ctx,
                            Stub(kind=kind), trials(n), jobs, features, {} if features else dict(shift=1.), what if what == 'threading' else None)
    else:
        for dt in (float, complex, int, np.float32, bool):
            for kind in ('real', 'complex'):
                X = (trials(3)*3).astype(dt)
                for jobs in (1, 2):
                    ctx.run('input %s estimates %s %d' % (np.dtype(dt), kind, jobs), plain, ctx, Stub(kind=kind), X, jobs, False, {}, 'threading')
        X = np.stack([np.round(5*data.gauss(12, 2, False, i)).astype(int) for i in range(3)])
        for cls in (base.ComplexEmpiricalCovariance(), est.make('student', 3, True), est.make('tyler', None, True), est.make('student', 3, False), base.RealEmpiricalCovariance()):
            for jobs in (1, 2):
                ctx.run('integer input %s %d' % (cls, jobs), plain, ctx, cls, X, jobs, False, {}, 'threading')
                ctx.run('real input %s %d' % (cls, jobs), plain, ctx, cls, X*0.37, jobs, False, {}, 'threading')
