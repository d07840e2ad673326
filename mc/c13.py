"""C13: every public function and method of the package is called on every memory
layout (and combination for short argument lists) of its arguments; arguments, wrapped
estimators, the global random state and the value of a second call are compared."""
import copy
import itertools
import pickle

import numpy as np

from mc import core, data, est
from robuststats.estimation import base, covariance as cov, structured as struct
from robuststats.models import cost, manifolds as man, mappings, probability as prob
from robuststats.online.estimation import StochasticGradientCovarianceEstimator
from robuststats.utils import checking, generation_data as gen, linalg, montecarlo, verbose

BOUNDS = {
    'quick': 'all public functions/methods (~190 call forms) x sizes (2,6), (3,11), (6,40) x layouts {C, Fortran, reversed view, strided, read-only} for every '
             'argument (all combinations up to 3 array arguments); random functions under 2 global seeds',
    'thorough': 'additionally sizes (9,120), (1,4)',
}
RULE = 'a state is (function, size, layouts)'
SIZES = [(2, 6), (3, 11), (6, 40)]


def as_layout(a, how):
    if not isinstance(a, np.ndarray):
        return copy.deepcopy(a)
    if how == 'C':
        return np.array(a, order='C')
    if how == 'F':
        return np.array(a, order='F')
    if how == 'reversed':
        return np.array(a[::-1])[::-1]
    if how == 'strided':
        b = np.zeros(tuple(2*s for s in a.shape), dtype=a.dtype) + 77
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 'readonly':
        b = np.array(a)
        b.flags.writeable = False
        return b


LAYOUTS = ('C', 'F', 'reversed', 'strided', 'readonly')


def state_of(x):
    """a comparable snapshot"""
    if isinstance(x, np.ndarray):
        return ('a', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(state_of(y) for y in x)
    if isinstance(x, np.random.RandomState):
        return pickle.dumps(x.get_state())
    if isinstance(x, base._FeatureArray):
        return ('fa', len(x), state_of(x.export()) if len(x) else None)
    if hasattr(x, '__dict__') and not callable(x):
        return (type(x).__name__,) + tuple((k, state_of(v)) for k, v in sorted(vars(x).items()) if not callable(v))
    return repr(x)


def flat(r):
    if isinstance(r, (list, tuple)):
        return [x for y in r for x in flat(y)]
    if isinstance(r, base._FeatureArray):
        return flat(r.export())
    return [r]


def H(p, cplx, i=0):
    return data.gauss(p, p, cplx, 60 + i) + data.gauss(p, p, cplx, 60 + i).conj().T


def S(p, cplx, i=0):
    A = data.gauss(2*p, p, cplx, 80 + i)
    return A.T @ A.conj()/(2*p) + 0.3*np.eye(p)


def unit(M):
    return M/np.real(np.linalg.det(M))**(1/len(M))


def table(p, N):
    """(name, function of fresh arguments, arguments, random?)"""
    T = []

    def add(name, fn, *args, **kw):
        T.append((name, fn, args, kw))
    for cplx in (False, True):
        t = 'complex' if cplx else 'real'
        X, S0, S1 = data.gauss(N, p, cplx, 1, 'corr'), S(p, cplx), S(p, cplx, 1)
        v = X[0]
        for kind in ('tyler', 'student', 'huber'):
            par = est.PARS[kind][0]
            f = lambda X, init, kind=kind, par=par: est.call(kind, par, X, init=init, iter_max=5)
            add('%s %s' % (kind, t), f, X, S0)
            add('%s %s default start' % (kind, t), lambda X, f=f: f(X, None), X)
            for n in ('trace', 'determinant', 'element'):
                if kind == 'tyler':
                    add('tyler %s %s' % (t, n), lambda X, init, n=n: est.call('tyler', None, X, init=init, iter_max=5, normalisation=n), X, S0)
        ng = cov.complex_tyler_shape_matrix_naturalgradient if cplx else cov.tyler_shape_matrix_naturalgradient
        if p <= 3:
            start = est.call('tyler', None, X, iter_max=100, tol=1e-10)[0] + 1e-3*np.eye(p)
            for n in ('None', 'trace'):
                add('natural gradient %s %s' % (t, n), lambda X, init, ng=ng, n=n: ng(X, init=init, normalisation=n), X, start)
            add('natural gradient %s default start' % t, lambda X, ng=ng: ng(X) and None, X, random=True)
        c = cost.Tyler_cost_complex if cplx else cost.Tyler_cost_real
        add('tyler cost ' + t, c, X, S0)
        add('tyler cost autograd ' + t, lambda X, Q, c=c: float(c(X, Q, autograd=True)), X, S0)
        for f in ('sqrtm', 'invsqrtm', 'logm', 'expm'):
            for ag in (False, True):
                add('%s %s %s' % (f, t, ag), lambda A, f=f, ag=ag: np.asarray(getattr(linalg, f)(A, autograd=ag)), S0)
        add('powm ' + t, lambda A: linalg.powm(A, -0.3), S0)
        for f in ('multihconj', 'multiherm', 'hermitian'):
            add('%s %s' % (f, t), lambda A, f=f: np.array(getattr(linalg, f)(A)), X[:p].copy() if f == 'hermitian' else np.stack([X[:p], X[1:p + 1]]))
        add('vec ' + t, linalg.vec, X[:p].copy())
        add('unvec ' + t, linalg.unvec, X[:p].reshape(-1).copy())
        add('vech ' + t, linalg.vech, S0)
        add('unvech ' + t, linalg.unvech, linalg.vech(S0))
        add('unvec stack ' + t, linalg.unvec, X[:p].reshape(-1, 1).copy())
        for n in ('trace', 'determinant', 'element', 'None', None):
            add('normalisation %s %s' % (n, t), lambda A, n=n: cov.get_normalisation_function(n)(A), S0)
        add('check_Hermitian ' + t, mappings.check_Hermitian, S0)
        add('check_Symmetric ' + t, mappings.check_Symmetric, S0)
        add('iscovariance ' + t, mappings.iscovariance, S0)
        add('arraytoreal ' + t, mappings.arraytoreal, X)
        add('arraytoreal vector ' + t, mappings.arraytoreal, v)
        add('covariancetoreal ' + t, mappings.covariancetoreal, S0)
        add('covariancestoreal ' + t, mappings.covariancestoreal, np.stack([S0, S1]))
        for law in ('normal', 't'):
            d = prob.complex_multivariate_normal if law == 'normal' else prob.complex_multivariate_t
            kw = (lambda m, C: dict(mean=m, cov=C)) if law == 'normal' else (lambda m, C: dict(loc=m, shape=C, df=3))
            for f in ('logpdf', 'pdf'):
                add('%s %s %s' % (law, f, t), lambda X, m, C, d=d, f=f, kw=kw: getattr(d, f)(X, **kw(m, C)), X[:4], v, S0)
                add('%s frozen %s %s' % (law, f, t), lambda X, m, C, d=d, f=f, kw=kw: getattr(d(**kw(m, C)), f)(X), X[:4], v, S0)
            add('%s rvs state %s' % (law, t), lambda m, C, s, d=d, kw=kw: d.rvs(size=3, random_state=s, **kw(m, C)), v, S0, 7)
            add('%s frozen rvs state %s' % (law, t), lambda m, C, s, d=d, kw=kw: d(**kw(m, C)).rvs(size=3, random_state=s), v, S0, 7)
            add('%s frozen seed %s' % (law, t), lambda m, C, s, d=d, kw=kw: d(seed=s, **kw(m, C)).rvs(size=3), v, S0, 7)
            add('%s rvs %s' % (law, t), lambda m, C, d=d, kw=kw: d.rvs(size=3, **kw(m, C)), v, S0, random=True)
        d = prob.complex_multivariate_normal
        add('entropy ' + t, d.entropy, v, S0)
        if p <= 2:
            add('cdf ' + t, lambda x, m, C, d=d: np.round(d.cdf(x, m, C, maxpts=2000), 1), v, v + 0.3, S0, random='may')
        if cplx:
            add('complex_empirical_covariance', base.complex_empirical_covariance, X)
        # estimators
        for name, e in estimators(p, cplx):
            Y = data.gauss(N, p, cplx, 3)
            add('%s fit %s' % (name, t), lambda X, e=e: copy.deepcopy(e).fit(X).covariance_, X)
            add('%s fit_transform %s' % (name, t), lambda X, e=e: copy.deepcopy(e).fit_transform(X), X)
            if 'init' in e.fit.__code__.co_varnames:
                add('%s fit start %s' % (name, t), lambda X, i, e=e: copy.deepcopy(e).fit(X, init=i).covariance_, X, S0)
            f = copy.deepcopy(e).fit(X)
            if 'uber' not in name:
                add('%s score %s' % (name, t), lambda f, Y: f.score(Y), f, Y)
            add('%s mahalanobis %s' % (name, t), lambda f, Y: f.mahalanobis(Y), f, Y)
            for norm in ('frobenius', 'spectral'):
                for sc in (True, False):
                    add('%s error norm %s %s %s' % (name, norm, sc, t), lambda f, C, norm=norm, sc=sc: f.error_norm(C, norm=norm, scaling=sc), f, S0)
            add('%s precision %s' % (name, t), lambda f: f.get_precision(), f)
            if p <= 3:
                Z = np.stack([X, Y, X[::-1]])
                add('%s batch %s' % (name, t), lambda e, Z: base.CovariancesEstimation(e).transform(Z), f, Z)
                add('%s features %s' % (name, t), lambda e, Z: base.FeaturesEstimation(e).transform(Z), f, Z)
    X = data.gauss(N, p, True, 1)
    add('arraytocomplex', mappings.arraytocomplex, mappings.arraytoreal(X))
    add('covariancetocomplex', mappings.covariancetocomplex, mappings.covariancetoreal(S(p, True)))
    add('covariancestocomplex', mappings.covariancestocomplex, mappings.covariancestoreal(np.stack([S(p, True)]*2)))
    add('toeplitz', linalg.ToeplitzMatrix, 0.4 + 0.1j, p)
    for nm, f in (('check_positive', lambda: checking.check_positive(2, 'a')), ('check_type', lambda: checking.check_type(2, 'a', [int])),
                  ('check_value', lambda: checking.check_value(2, 'a', [2]))):
        add(nm, f)
    # kronecker
    for a, b in ((p, 2), (1, p), (2, 1)):
        Xk = data.gauss(3*a*b + 2, a*b, True, 4)
        if a*b <= 6:
            add('kronecker mm %d %d' % (a, b), lambda X, a=a, b=b: struct.estimation_cov_kronecker_MM(X, a, b, iter_max=4), Xk)
            add('KroneckerEllipticalMM %d %d' % (a, b), lambda X, a=a, b=b: struct.KroneckerEllipticalMM(a, b, iter_max=3).fit(X).covariance_, Xk)
        if a*b <= 4:
            add('KroneckerStudent %d %d' % (a, b), lambda X, A, B, a=a, b=b: struct.KroneckerStudent(a, b, 3).fit(X, init=(A, B)).covariance_,
                Xk, unit(S(a, True)), S(b, True))
            e = struct.KroneckerStudent(a, b, 3).fit(Xk)
            add('KroneckerStudent score %d %d' % (a, b), lambda e, X: e.score(X), e, Xk)
            M = man.KroneckerHermitianPositiveElliptical(a, b, 0.7)
            if a*b == 2 and p == 2:
                add('kronecker student descent %d %d' % (a, b), lambda X, m, A, B, a=a, b=b, M=M: struct._estimate_covariance_kronecker_t_gradient(
                    X, 3, a, b, M, mean=m, init=[A, B]), Xk, Xk[0]/3, unit(S(a, True)), S(b, True))
        add('kronecker student cost %d %d' % (a, b), lambda X, m, A, B: float(np.real(struct._generate_cost_function_kronecker_student(X, 3, m)(A, B))),
            Xk, Xk[0], unit(S(a, True)), S(b, True))
        add('kronecker student gradient %d %d' % (a, b), lambda X, m, A, B, a=a, b=b: list(struct._generate_egrad_function_kronecker_student(X, a, b, 3, m)(A, B)),
            Xk, Xk[0], unit(S(a, True)), S(b, True))
    # manifolds
    for k in (1, 2):
        st = (lambda f: f(0)) if k == 1 else (lambda f: np.stack([f(0), f(1)]))
        Ms = [('spv', man.StrictlyPositiveVectors(p, k), np.abs(data.gauss(p, k, False, 9)) + 0.2, np.abs(data.gauss(p, k, False, 8)) + 0.2,
               data.gauss(p, k, False, 7), data.gauss(p, k, False, 6)),
              ('hpd', man.HermitianPositiveDefinite(p, k), st(lambda i: S(p, True, i)), st(lambda i: S(p, True, 3 + i)),
               st(lambda i: H(p, True, i)), st(lambda i: H(p, True, 3 + i))),
              ('shpd', man.SpecialHermitianPositiveDefinite(p, k), st(lambda i: unit(S(p, True, i))), st(lambda i: unit(S(p, True, 3 + i))),
               st(lambda i: H(p, True, i)), st(lambda i: H(p, True, 3 + i)))]
        for name, M, x, y, u, w in Ms:
            u = M.proj(x, u).copy()
            w = M.proj(x, w).copy()
            n = '%s k=%d ' % (name, k)
            for f in ('exp', 'retr', 'proj', 'norm', 'egrad2rgrad'):
                add(n + f, getattr(M, f), x, u)
            for f in ('log', 'dist'):
                add(n + f, getattr(M, f), x, y)
            add(n + 'inner', M.inner, x, u, w)
            add(n + 'transp', M.transp, x, y, u)
            if name != 'shpd':
                add(n + 'ehess2rhess', M.ehess2rhess, x, u, w, u.copy())
            add(n + 'zerovec', M.zerovec, x)
            add(n + 'randvec', M.randvec, x, random=True)
            add(n + 'rand', M.rand, random=True)
    for name, M in (('kronecker', man.KroneckerHermitianPositiveElliptical(p, 2, 0.8)),
                    ('weighted', man.WeightedProduct([man.HermitianPositiveDefinite(p), man.HermitianPositiveDefinite(2)], [2., 0.5]))):
        x, y = [unit(S(p, True)), S(2, True)], [unit(S(p, True, 1)), S(2, True, 1)]
        u, w = [list(M.proj(x, [H(p, True, i), H(2, True, i)])) for i in (0, 1)]
        for f in ('exp', 'retr', 'proj', 'norm', 'egrad2rgrad'):
            add('%s %s' % (name, f), lambda x0, x1, u0, u1, M=M, f=f: getattr(M, f)([x0, x1], [u0, u1]), *x, *u)
        for f in ('log', 'dist'):
            add('%s %s' % (name, f), lambda x0, x1, u0, u1, M=M, f=f: getattr(M, f)([x0, x1], [u0, u1]), *x, *y)
        add(name + ' inner', lambda x0, x1, u0, u1, M=M, w=w: M.inner([x0, x1], [u0, u1], w), *x, *u)
        add(name + ' transp', lambda x0, x1, u0, u1, M=M, y=y: M.transp([x0, x1], y, [u0, u1]), *x, *u)
        add(name + ' randvec', lambda x0, x1, M=M: list(M.randvec([x0, x1])), *x, random=True)
        add(name + ' rand', lambda M=M: list(M.rand()), random=True)
    # online
    M = man.HermitianPositiveDefinite(p)
    e = StochasticGradientCovarianceEstimator(M, lambda x, A: A - x.T @ x.conj(), -0.1)
    for lr in ('inverse iteration', 'constant'):
        add('online fit %s' % lr, lambda X, i, lr=lr: copy.deepcopy(e).fit(X, init=i, lr_update=lr).covariance_, X, S(p, True))

        def upd(X, i, lr=lr):
            f = copy.deepcopy(e)
            f.set_estimate(i)
            f.update(X, lr)
            return [f.estimate_, f.covariance_]
        add('online update %s' % lr, upd, X[:1], S(p, True))
    # generators
    for f in ('generate_covariance', 'generate_complex_covariance'):
        for d in (True, False):
            add('%s %s' % (f, d), lambda f=f, d=d: getattr(gen, f)(p, unit_det=d), random=True)
    for f in ('generate_stiefel', 'generate_complex_stiefel'):
        add(f, lambda f=f: getattr(gen, f)(p, 1), random=True)
    for f in ('generate_textures_gamma_dist', 'generate_textures_lognormal_dist'):
        add(f, lambda f=f: getattr(gen, f)(N), random=True)
    for c in ('', 'complex_'):
        cplx = c != ''
        add(c + 'standard', lambda c=c: getattr(gen, 'sample_%sstandard_normal_distribution' % c)(p, N), random=True)
        add(c + 'normal', lambda C, c=c: getattr(gen, 'sample_%snormal_distribution' % c)(N, C), S(p, cplx), random=True)
        add(c + 'compound', lambda t, C, c=c: getattr(gen, 'sample_%scompound_distribution' % c)(t, C), np.abs(data.gauss(N, 1, False, 2)) + .1, S(p, cplx), random=True)
        U = np.linalg.qr(data.gauss(p, p, cplx, 3))[0][:, :max(1, p - 1)]
        add(c + 'UUH', lambda t, U, c=c: getattr(gen, 'sample_%stau_UUH_distribution' % c)(t, U), np.abs(data.gauss(N, 1, False, 2)) + .1, U, random=True)
    return T


def estimators(p, cplx):
    out = []
    for kind in ('tyler', 'student', 'huber'):
        for sp in (True, False):
            e = est.make(kind, est.PARS[kind][0], cplx, iter_max=6)
            e.store_precision = sp
            out.append(('%s precision=%s' % (kind, sp), e))
    out.append(('tyler trace', est.make('tyler', None, cplx, iter_max=6, normalisation='trace')))
    cls = base.ComplexEmpiricalCovariance if cplx else base.RealEmpiricalCovariance
    out += [('empirical', cls()), ('empirical centred', cls(assume_centered=True, store_precision=False))]
    if not cplx:
        pass
    return out


def rng():
    return pickle.dumps(np.random.get_state())


def case(ctx, name, fn, args, random, layouts, reference):
    mk = lambda: [as_layout(a, l) for a, l in zip(args, layouts)]
    A = mk()
    before = [state_of(a) for a in A]
    np.random.seed(4321)
    g0 = rng()
    r1 = fn(*A)
    ctx.step()
    for i, (a, b) in enumerate(zip(A, before)):
        ctx.ok(state_of(a) == b, 'argument %d was changed' % i, a)
    if not random:
        ctx.ok(rng() == g0, 'the global random state was used')
    s1 = copy.deepcopy(flat(r1))
    if random == 'may':
        return
    if random:
        np.random.seed(4321)
    r2 = fn(*A)
    ctx.step()
    s2 = flat(r2)
    ctx.ok(len(s1) == len(s2), 'another number of results')
    for a, b in zip(s2, s1):
        ctx.same(a, b, 'the second call gives another value') if isinstance(b, (np.ndarray, np.generic, float, complex, bool, int)) else None
    # spoiling a result must not spoil the next call
    for x in s2:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x *= 0
            x += 1
    A = mk()
    if random:
        np.random.seed(4321)
    r3 = flat(fn(*A))
    for a, b in zip(r3, s1):
        if isinstance(b, np.ndarray):
            ctx.ok(a.shape == b.shape and core.relerr(a, b) <= 1e-9, 'value after the caller changed an earlier result', a, b)
    if reference:
        for a, b in zip(s1, reference):
            if isinstance(b, (np.ndarray, float, complex, np.generic)) and np.asarray(b).dtype.kind in 'fc':
                ctx.ok(core.relerr(a, b) <= 1e-6, 'the value depends on the memory layout %s' % (layouts,), a, b)
    ctx.see(*[x for x in s1 if isinstance(x, np.ndarray)][:2])
    return s1


def later(ctx, name, build, args):
    """results kept by an object must not follow later changes of the arguments"""
    A = [as_layout(a, 'C') for a in args]
    obj, look = build(*A)
    want = copy.deepcopy(flat(look(obj)))
    for a in A:
        if isinstance(a, np.ndarray):
            a *= -3
            a += 11
    got = flat(look(obj))
    ctx.step(2)
    for a, b in zip(got, want):
        ctx.same(np.asarray(a), np.asarray(b), 'a kept result follows changes of the arguments')


def laters(p, N):
    out = []
    for cplx in (False, True):
        X, S0 = data.gauss(N, p, cplx, 1, 'corr'), S(p, cplx)
        for name, e in estimators(p, cplx):
            look = lambda f: [f.covariance_, f.get_precision(), f.location_]
            out.append((name + ' fit %s' % cplx, lambda X, e=e, look=look: (copy.deepcopy(e).fit(X), look), (X,)))
            if 'init' in e.fit.__code__.co_varnames:
                for im in (0, 1, 6):
                    def b(X, i, e=e, im=im, look=look):
                        f = copy.deepcopy(e).set_params(iter_max=im, tol=0.)
                        return f.fit(X, init=i), look
                    out.append(('%s start %d iterations %s' % (name, im, cplx), b, (X, S0)))
        for law in ('normal', 't'):
            d = prob.complex_multivariate_normal if law == 'normal' else prob.complex_multivariate_t
            kw = (lambda m, C: dict(mean=m, cov=C)) if law == 'normal' else (lambda m, C: dict(loc=m, shape=C, df=3))
            x = X[:3].copy()
            out.append(('%s %s' % (law, cplx), lambda m, C, d=d, kw=kw, x=x: (d(**kw(m, C)), lambda z: [z.logpdf(x), z.pdf(x)]), (X[0], S0)))
    M = man.HermitianPositiveDefinite(p)
    for which in ('fit', 'set'):
        def b(X, i, which=which):
            e = StochasticGradientCovarianceEstimator(M, lambda x, A: A - x.T @ x.conj(), -0.1)
            e.fit(X, init=i) if which == 'fit' else e.set_estimate(i)
            return e, lambda e: [e.estimate_, e.covariance_]
        out.append(('online %s' % which, b, (data.gauss(N, p, True, 1), S(p, True))))
        out.append(('online %s no data' % which, b, (data.gauss(N, p, True, 1)[:0], S(p, True))))
    return out


def plan(tier):
    sizes = SIZES + ([(9, 120), (1, 4)] if tier == 'thorough' else [])
    return [(p, N, part) for p, N in sizes for part in range(16)] + [('later', p, N) for p, N in sizes]


def run_unit(ctx, *u):
    if u[0] == 'later':
        _, p, N = u
        for name, build, args in laters(p, N):
            ctx.run('later %s p=%d' % (name, p), later, ctx, name, build, args)
        return
    p, N, part = u
    for j, (name, fn, args, kw) in enumerate(table(p, N)):
        if j % 16 != part:
            continue
        random = kw.get('random', False)
        arrays = [i for i, a in enumerate(args) if isinstance(a, np.ndarray)]
        ref = None
        combos = itertools.product(LAYOUTS, repeat=len(arrays)) if len(arrays) <= 3 else [[l]*len(arrays) for l in LAYOUTS]
        if 'natural' in name or 'Kronecker' in name or 'descent' in name or 'batch' in name:
            combos = [[l]*len(arrays) for l in LAYOUTS]
        for lay in combos:
            full = ['C']*len(args)
            for i, l in zip(arrays, lay):
                full[i] = l
            r = ctx.run('%s p=%d %s' % (name, p, ' '.join(lay)), case, ctx, name, fn, args, random, full, ref)
            ref = ref or r
