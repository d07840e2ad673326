"""C11: two real threads run one computation each under a controlled scheduler which can
switch at every line (or byte code) executed inside the package; every schedule up to
the preemption bound is executed and both results compared with those of running the
two computations one after the other."""
import itertools

import autograd
import numpy as np

from mc import data, est, sched
from robuststats.estimation import base, covariance as cov, structured as struct
from robuststats.models import cost, manifolds as man, mappings, probability as prob
from robuststats.online.estimation import StochasticGradientCovarianceEstimator
from robuststats.utils import checking, generation_data as gen, linalg

BOUNDS = {
    'quick': '~60 computations; each against itself on other data and against one other; all schedules with 1 preemption at line granularity '
             '(2 for those of at most 16 lines; call granularity for pymanopt fits)',
    'thorough': 'all pairs with 1 preemption at line granularity, same-computation pairs with 2 (up to 60 lines), opcode granularity with 1',
}
RULE = 'a state is a complete schedule of two threads'
LIMIT = {'quick': 400., 'thorough': 3400.}


def X_(i, cplx=True, p=2, N=6):
    return data.gauss(N, p, cplx, i, ('gauss', 'corr')[i])


def S_(i, p=2, cplx=True):
    r = data.gauss(3*p, p, cplx, 20 + i)
    return r.T @ r.conj()/(3*p) + np.eye(p)*(i + 0.5)


def H_(i, p=2, cplx=True):
    r = data.gauss(p, p, cplx, 40 + i)
    return r + r.conj().T


def fitted(e, X, *out):
    e.fit(X)
    return [e.covariance_, e.get_precision(), np.asarray(e.location_)] + [f(e) for f in out]


OPS = {}


def op(name, slow=False):
    def deco(f):
        OPS[name] = (f, slow)
        return f
    return deco


for kind in ('tyler', 'student', 'huber'):
    for cplx in (False, True):
        def f(i, kind=kind, cplx=cplx):
            X, par = X_(i, cplx), {'tyler': None, 'student': (3, 1)[i], 'huber': (0.9, 0.5)[i]}[kind]
            return lambda: est.call(kind, par, X, iter_max=3 + i, tol=1e-12, init=S_(i, 2, cplx) if i else None)
        op('%s %s' % (kind, 'complex' if cplx else 'real'))(f)

        def f(i, kind=kind, cplx=cplx):
            X, par = X_(i, cplx), {'tyler': None, 'student': (3, 1)[i], 'huber': (0.9, 0.5)[i]}[kind]
            e = est.make(kind, par, cplx, iter_max=2 + i)
            return lambda: fitted(e, X, lambda e: e.mahalanobis(X),
                                  lambda e: e.score(X) if kind != 'huber' else 0, lambda e: e.error_norm(S_(i, 2, cplx)))
        op('%s %s class' % (kind, 'complex' if cplx else 'real'))(f)

        if kind == 'tyler':
            for n in ('trace', 'determinant', 'element'):
                def f(i, n=n, cplx=cplx):
                    X = X_(i, cplx)
                    return lambda: est.call('tyler', None, X, iter_max=2, normalisation=n)
                op('tyler %s %s' % (n, cplx))(f)

            def f(i, cplx=cplx):
                X = X_(i, cplx)
                S = est.call('tyler', None, X, iter_max=200, tol=1e-13)[0]
                e = est.make('tyler', None, cplx, method='natural gradient', normalisation='trace')
                S = S + 4e-6*np.diag([1., 0])

                def go():
                    e.fit(X, init=S)
                    return e.covariance_
                return go
            op('natural gradient %s' % cplx, True)(f)


@op('real empirical')
def _(i):
    return lambda: fitted(base.RealEmpiricalCovariance(), X_(i, False), lambda e: e.transform(X_(i, False)))


@op('complex empirical')
def _(i):
    X = X_(i)
    return lambda: fitted(base.ComplexEmpiricalCovariance(assume_centered=bool(i)), X, lambda e: e.mahalanobis(X),
                          lambda e: e.score(X), lambda e: e.error_norm(S_(i)), lambda e: base.complex_empirical_covariance(X))


@op('kronecker mm', True)
def _(i):
    X = data.gauss(12, 4, True, i)
    e = struct.KroneckerEllipticalMM(2, 2, iter_max=3)
    return lambda: fitted(e, X)


@op('kronecker student', True)
def _(i):
    X = data.gauss(9, 2, True, i)
    e0 = struct.KroneckerStudent(1, 2, 3).fit(X)
    e = struct.KroneckerStudent(1, 2, 3)
    init = e0.A_, e0.B_

    def go():
        e.fit(X, init=init)
        return [e.covariance_, e.score(X)]
    return go


@op('kronecker student cost')
def _(i):
    X, loc = data.gauss(4, 4, True, i), data.gauss(1, 4, True, 5 + i)[0]

    def go():
        c = struct._generate_cost_function_kronecker_student(X, 2. + i, loc)
        g = struct._generate_egrad_function_kronecker_student(X, 2, 2, 2. + i, loc)
        return [float(c(S_(i), S_(1 - i)))] + [np.asarray(x) for x in g(S_(i), S_(1 - i))]
    return go


@op('features')
def _(i):
    X = X_(i)

    def go():
        a = base._FeatureArray((2, 2), (2,))
        for k in range(2):
            a.append([(k + i)*S_(i), X[k]])
        return [a.vectorize().export() if hasattr(a.vectorize(), 'export') else a.vectorize(), a.export(), len(a), a[0].export()]
    return go


@op('batch')
def _(i):
    X = np.stack([X_(i, False), 2*X_(1 - i, False)])
    T = base.CovariancesEstimation(base.RealEmpiricalCovariance(assume_centered=True), n_jobs=1)
    return lambda: T.fit(X).transform(X)


@op('mappings')
def _(i):
    X, S = X_(i), S_(i)

    def go():
        a, b = mappings.arraytoreal(X), mappings.covariancetoreal(S)
        return [a, b, mappings.arraytocomplex(a), mappings.covariancetocomplex(b), mappings.covariancestoreal(np.stack([S, 2*S])),
                mappings.check_Hermitian(S), mappings.check_Symmetric(b)]
    return go


for law in ('normal', 't'):
    for cplx in (True, False):
        def f(i, law=law, cplx=cplx):
            x, m, S = X_(i, cplx), X_(1 - i, cplx)[0], S_(i, 2, cplx)
            d = prob.complex_multivariate_normal if law == 'normal' else prob.complex_multivariate_t
            kw = dict(mean=m, cov=S) if law == 'normal' else dict(loc=m, shape=S, df=3 + i)
            return lambda: [d.logpdf(x, **kw), d.pdf(x[0], **kw), d.rvs(size=3, random_state=i, **kw)] + (
                [d.entropy(m, S)] if law == 'normal' else [])
        op('%s law %s' % (law, cplx))(f)

        def f(i, law=law, cplx=cplx):
            x, m, S = X_(i, cplx), X_(1 - i, cplx)[0], S_(i, 2, cplx)
            d = prob.complex_multivariate_normal if law == 'normal' else prob.complex_multivariate_t
            kw = dict(mean=m, cov=S) if law == 'normal' else dict(loc=m, shape=S, df=3 + i)

            def go():
                z = d(**kw)
                return [z.logpdf(x), z.pdf(x), z.rvs(size=2, random_state=np.random.RandomState(i))]
            return go
        op('%s law frozen %s' % (law, cplx))(f)


@op('normal cdf')
def _(i):
    x = X_(i, True, 1)[:1]
    return lambda: np.round(prob.complex_multivariate_normal.cdf(x, np.zeros(1), np.eye(1)*(1 + 1j*0)*(i + 1)), 3)


def walk(M, x, y, u, v, extra):
    def go():
        u_ = M.proj(x, u)
        v_ = M.proj(x, v)
        out = [M.inner(x, u_, v_), M.norm(x, u_), M.exp(x, u_), M.retr(x, u_), M.log(x, y), M.dist(x, y), M.transp(x, y, u_),
               M.egrad2rgrad(x, v)]
        if extra:
            out.append(M.ehess2rhess(x, v, u, u_))
        return out
    return go


@op('positive vectors')
def _(i):
    M = man.StrictlyPositiveVectors(3, 1)
    r = np.random.RandomState(i)
    return walk(M, r.rand(3, 1) + 0.3, r.rand(3, 1) + 0.2, r.randn(3, 1), r.randn(3, 1), True)


@op('hpd')
def _(i):
    return walk(man.HermitianPositiveDefinite(2), S_(i), S_(1 - i), H_(i), H_(1 - i), True)


@op('hpd stack')
def _(i):
    st = lambda f, s: np.stack([f(i), s*f(1 - i)])
    return walk(man.HermitianPositiveDefinite(2, 2), st(S_, 2), st(S_, 1.5)[::-1].copy(), st(H_, 2), st(H_, -1)[::-1].copy(), True)


@op('shpd')
def _(i):
    M = man.SpecialHermitianPositiveDefinite(2)
    n = lambda S: S/np.sqrt(np.real(np.linalg.det(S)))
    return walk(M, n(S_(i)), n(S_(1 - i)), H_(i), H_(1 - i), False)


@op('kronecker manifold')
def _(i):
    M = man.KroneckerHermitianPositiveElliptical(2, 2, 0.6 + 0.2*i)
    n = lambda S: S/np.sqrt(np.real(np.linalg.det(S)))
    x, y = [n(S_(i)), S_(1 - i)], [n(S_(1 - i)), 2*S_(i)]
    u, v = [H_(i), H_(1 - i)], [H_(1 - i), H_(i) + 1]

    def go():
        u_, v_ = M.proj(x, u), M.proj(x, v)
        return [M.inner(x, u_, v_), M.norm(x, u_), M.dist(x, y)] + [list(z) for z in (
            M.exp(x, u_), M.retr(x, u_), M.log(x, y), M.transp(x, y, u_), M.egrad2rgrad(x, v))]
    return go


for cplx in (False, True):
    def f(i, cplx=cplx):
        c = cost.Tyler_cost_complex if cplx else cost.Tyler_cost_real
        X, Q = X_(i, cplx), S_(i, 2, cplx)
        return lambda: [float(c(X, Q)), float(c(X, Q, autograd=True)), autograd.grad(lambda Q: c(X, Q, autograd=True))(Q)]
    op('tyler cost %s' % cplx)(f)


@op('matrix functions')
def _(i):
    S = np.stack([S_(i), 3*S_(1 - i)])
    return lambda: [linalg.sqrtm(S), linalg.invsqrtm(S[0]), linalg.logm(S), linalg.expm(H_(i)), linalg.powm(S, 0.3 + i),
                    linalg.hermitian(S), linalg.multiherm(S*1j), linalg.sqrtm(S[1], autograd=True)]


@op('vectorisations')
def _(i):
    S = S_(i, 3)
    return lambda: [linalg.vec(S), linalg.unvec(linalg.vec(S)), linalg.vech(S), linalg.unvech(linalg.vech(S)), linalg.ToeplitzMatrix(0.3 + 0.2*i, 3),
                    linalg.ToeplitzMatrix(0.3j, 2 + i)]


@op('online')
def _(i):
    M = man.HermitianPositiveDefinite(2)
    X = X_(i)[:3]
    e = StochasticGradientCovarianceEstimator(M, lambda x, S: S - x.T @ x.conj(), (-0.2, -0.1)[i])

    def go():
        e.fit(X, init=S_(i))
        e.update(X[:1], 'constant')
        e.update(X[1:2], 'inverse iteration')
        return [e.estimate_, e.covariance_]
    return go


@op('textures')
def _(i):
    return lambda: [checking.check_positive(1. + i, 'x'), checking.check_type(i, 'x', [int]), checking.check_value(i, 'x', [0, 1])]


def flat(r):
    if isinstance(r, (list, tuple)):
        return [x for y in r for x in flat(y)]
    return [r]


def compare(ctx, got, want, who):
    got, want = flat(got), flat(want)
    ctx.ok(len(got) == len(want), 'number of results of ' + who, len(got), len(want))
    for a, b in zip(got, want):
        if isinstance(b, (np.ndarray, np.generic, float, complex)):
            a, b = np.asarray(a), np.asarray(b)
            ctx.ok(a.dtype == b.dtype, 'element type of ' + who, a.dtype, b.dtype)
            ctx.close(a, b, 1e-9, 'result of ' + who)
        else:
            ctx.ok(a == b, 'result of ' + who, a, b)


def pair(ctx, tag, f, g, grain, bound):
    fi, gi = (0, 1)
    mk = lambda: (OPS[f][0](fi), OPS[g][0](gi))
    F, G = mk()
    want = F(), G()

    def once(prefix):
        label = '%s schedule %s' % (tag, '.'.join(map(str, prefix)) or '-')
        box = []

        def body():
            run = sched.Run(prefix, grain=grain)
            calls = mk()
            res, err = [None, None], [None, None]

            def runner(k):
                try:
                    res[k] = calls[k]()
                except Exception as e:
                    err[k] = e
            for k in (0, 1):
                run.spawn(lambda k=k: runner(k))
            run.run()
            ctx.step(2)
            for k, name in enumerate((f, g)):
                ctx.ok(err[k] is None, '%s raised %r' % (name, err[k]))
                compare(ctx, res[k], want[k], name)
            box.append(run)
        ctx.run(label, body)
        ctx.trace()
        if not box:
            raise StopIteration
        return box[0]
    if ctx.only is not None:
        if ctx.only.startswith(tag + ' schedule '):
            s = ctx.only.rsplit(' ', 1)[1]
            once([] if s == '-' else [int(c) for c in s.split('.')])
        return
    ctx.see(*[x for x in flat(want) if isinstance(x, np.ndarray)][:3])
    try:
        first = once([])
        n = len(first.points)
        ctx.notes['longest'] = max(ctx.notes.get('longest', 0), n)
        N, _ = sched.explore(once, bound(n))
        ctx.notes['schedules'] = ctx.notes.get('schedules', 0) + N
    except StopIteration:
        pass


def plan(tier):
    names = list(OPS)
    units = []
    for i, f in enumerate(names):
        slow = OPS[f][1]
        units.append((f, f, 'call' if slow else 'line', 1 if tier == 'quick' else 2))
        if tier == 'thorough' and not slow:
            units.append((f, f, 'opcode', 1))
        if tier == 'quick':
            if not slow:
                for d in (7,):
                    g = names[(i + d) % len(names)]
                    if not OPS[g][1]:
                        units.append((f, g, 'line', 1))
        else:
            for g in names[i + 1:]:
                units.append((f, g, 'call' if slow or OPS[g][1] else 'line', 1))
    # the long ones first
    return sorted(units, key=lambda u: u[2] != 'call')


def run_unit(ctx, f, g, grain, most):
    if ctx.tier == 'thorough':
        bound = lambda n: 2 if most == 2 and n <= 130 else 1
    else:
        bound = lambda n: 2 if f == g and n <= 34 else 1
    pair(ctx, '%s | %s %s' % (f, g, grain), f, g, grain, bound)
