"""C28: every public function and method of the package is called with the same numbers stored
in different element types (integers of several widths, single precision, other byte order; all
arguments or one alone), as nested lists where arrays-like are promised, and with its scalar
parameters as every kind of number; the results must be those of plain double precision."""
import copy
import itertools

import numpy as np

from mc import c13, core, data, est
from robuststats.estimation import base, covariance as cov, structured as struct
from robuststats.models import cost, manifolds as man, mappings, probability as prob
from robuststats.online.estimation import StochasticGradientCovarianceEstimator
from robuststats.utils import generation_data as gen, linalg

BOUNDS = {
    'quick': 'all deterministic call forms of the package (~150) x sizes (2,6), (3,11), (6,40) x element types {int64, int32, int16, uint16, int8, uint8, float32/complex64, big-endian} '
             'x {all arguments, each argument alone}; estimator methods on nested lists and tuples; ~60 scalar parameters x every kind of number',
    'thorough': 'additionally sizes (9,120), (1,4)',
}
RULE = 'a case is (call, size, element types)'
SIZES = [(2, 6), (3, 11), (6, 40)]
# element type -> (factor, largest value) of the whole numbers used
TYPES = {'int64': (8, None), 'int32': (8, None), 'int16': (2000, 32767), 'uint16': (2000, 65535), 'int8': (30, 127), 'uint8': (30, 255), 'int16 full': (1e9, 32767), 'int8 full': (1e9, 127), 'uint8 full': (1e9, 255), 'uint16 full': (1e9, 65535), 'single': (64, None), 'big': (64, None)}


NARROW = ('int16', 'uint16', 'int8', 'uint8')


def is_num(a):
    return isinstance(a, np.ndarray) and a.dtype.kind in 'fc'


def herm(a):
    return a.ndim >= 2 and a.shape[-1] == a.shape[-2] and np.allclose(a, np.conj(np.swapaxes(a, -1, -2)))


def rounded(a, how):
    """the values of the case, as doubles"""
    if not is_num(a):
        return a
    s, top = TYPES[how]
    if how in ('single', 'big'):
        return np.round(s*a)/s
    if top is None or a.dtype.kind == 'c':
        return np.round(8*a)
    if how[0] == 'u' and not herm(a):
        a = np.abs(a)
    full = 'full' in how
    s = s if not herm(a) or full else max(8, min(s, top/4))
    if full or np.abs(a).max()*s > 0.9*top:
        s = (1. if full else 0.9)*top/max(np.abs(a).max(), 1e-300)
    return np.round(s*a)


def stored(a, how):
    if not is_num(a):
        return a
    c = a.dtype.kind == 'c'
    if how == 'single':
        return a.astype(np.complex64 if c else np.float32)
    if how == 'big':
        return a.astype(a.dtype.newbyteorder())
    if c or (how[0] == 'u' and a.min() < 0):
        return a
    b = a.astype(how.split()[0])
    assert np.array_equal(b, a), 'the harness lost values'
    return b


def numbers(r):
    return [np.asarray(x) for x in c13.flat(r) if isinstance(x, (np.ndarray, float, complex, np.generic)) and np.asarray(x).dtype.kind in 'fciu']


def compare(ctx, r, ref, tol, msg):
    ctx.ok(len(r) == len(ref), 'number of results')
    for x, y in zip(r, ref):
        ctx.ok(x.shape == y.shape, msg + ': shape', x, y)
        ctx.ok(core.relerr(x, y) <= tol, msg, x, y)


def case(ctx, fn, args, how, only, ref, tol):
    B = [stored(a, how) if only is None or i == only else a for i, a in enumerate(copy.deepcopy(args))]
    r = numbers(fn(*B))
    ctx.step()
    compare(ctx, r, ref, tol, 'the result depends on the element type (%s%s)' % (how, '' if only is None else ' for argument %d' % only))
    ctx.see(*r[:2])
    ctx.trace()


def forms(p, N, part):
    out = []
    for j, (n, f, a, kw) in enumerate(c13.table(p, N)):
        if j % 16 == part and any(map(is_num, a)) and (not kw.get('random') or 'compound' in n or 'UUH' in n):
            if kw.get('random'):      # textures; the matrices must be of double precision
                f, a = (lambda t, f=f, C=a[1]: (np.random.seed(5), f(t, C))[1]), a[:1]
            out.append((n, f, a, kw))
    return out


def run_types(ctx, p, N, part):
    for name, fn, args, kw in forms(p, N, part):
        for how in TYPES:
            if how.split()[0] in NARROW and (name.startswith('spv') or kw.get('random')):
                continue                       # the logarithm of narrow integers is half precision by numpy's rules, and so is the root of narrow textures
            A = [rounded(a, how) for a in args]
            if all(np.array_equal(stored(a, how), a) and stored(a, how).dtype == a.dtype for a in A if is_num(a)):
                continue
            try:
                ref = numbers(fn(*copy.deepcopy(A)))
            except Exception:
                ctx.notes['not defined at the rounded values'] = ctx.notes.get('not defined at the rounded values', 0) + 1
                continue
            if not all(np.isfinite(x).all() for x in ref):
                continue
            soft = 'natural' in name or 'Kronecker' in name or 'descent' in name
            tol = 3e-2 if how == 'single' else 1e-4 if soft else 1e-7
            idx = [i for i, a in enumerate(A) if is_num(a)]
            for only in [None] + (idx if len(idx) > 1 and how in ('int64', 'single') else []):
                ctx.run('%s p=%d N=%d %s %s' % (name, p, N, how, 'all' if only is None else only), case, ctx, fn, A, how, only, ref, tol)


def nested(ctx, e, X, Y, start, kind):
    conv = {'list': lambda a: a.tolist(), 'tuple': lambda a: tuple(map(tuple, a.tolist())), 'rows': list}[kind]
    f, g = copy.deepcopy(e), copy.deepcopy(e)
    kw = lambda c: {} if start is None else dict(init=c(start))
    f.fit(X, **kw(np.array))
    g.fit(conv(X), **kw(np.array))
    out = lambda h, c: [h.covariance_, h.location_, h.mahalanobis(c(Y))] + ([h.score(c(Y))] if 'Huber' not in type(h).__name__ else []) + [h.error_norm(h.covariance_*2)]
    compare(ctx, numbers(out(g, conv)), numbers(out(f, np.array)), 1e-9, 'array-likes are not read as arrays')
    ctx.step(2)
    ctx.trace()


def run_nested(ctx, p, N):
    for cplx in (False, True):
        X, Y, S0 = data.gauss(N, p, cplx, 1, 'corr'), data.gauss(N, p, cplx, 3), c13.S(p, cplx)
        for name, e in c13.estimators(p, cplx):
            for kind in ('list', 'tuple', 'rows'):
                for start in (None, S0):
                    if start is not None and 'init' not in e.fit.__code__.co_varnames:
                        continue
                    ctx.run('%s %s p=%d %s %s' % (name, kind, p, 'complex' if cplx else 'real', start is not None), nested, ctx, e, X, Y, start, kind)


INTS = (int, np.int64, np.int32, np.uint8)
NUMS = INTS + (float, np.float64, np.float32)
REALS = (float, np.float64, np.float32)


def parameters():
    """(name, function of the parameter, value, kinds)"""
    out = []

    def add(name, fn, value, kinds):
        out.append((name, fn, value, kinds))
    for cplx in (False, True):
        t = ' complex' if cplx else ' real'
        X, S0 = data.gauss(9, 2, cplx, 1, 'corr'), c13.S(2, cplx)
        for kind in ('tyler', 'student', 'huber'):
            par = est.PARS[kind][0]
            add(kind + ' iter_max' + t, lambda v, kind=kind, par=par, X=X: est.call(kind, par, X, iter_max=v), 4, INTS)
            add(kind + ' tol' + t, lambda v, kind=kind, par=par, X=X: est.call(kind, par, X, tol=v, iter_max=9), 0, NUMS)
            add(kind + ' wide tol' + t, lambda v, kind=kind, par=par, X=X: est.call(kind, par, X, tol=v), 1, NUMS)
            add(kind + ' class iter_max' + t, lambda v, kind=kind, par=par, X=X, cplx=cplx: est.make(kind, par, cplx, iter_max=v).fit(X).covariance_, 4, INTS)
            add(kind + ' class tol' + t, lambda v, kind=kind, par=par, X=X, cplx=cplx: est.make(kind, par, cplx, tol=v).fit(X).covariance_, 1, NUMS)
        add('student df' + t, lambda v, X=X: est.call('student', v, X), 3, NUMS)
        add('student class df' + t, lambda v, X=X, cplx=cplx: (lambda e: [e.covariance_, e.score(X)])(est.make('student', v, cplx).fit(X)), 3, NUMS)
        add('huber q one' + t, lambda v, X=X: est.call('huber', v, X), 1, NUMS)
        add('huber q' + t, lambda v, X=X: est.call('huber', v, X), 0.5, REALS)
        add('huber class q' + t, lambda v, X=X, cplx=cplx: est.make('huber', v, cplx).fit(X).covariance_, 0.5, REALS)
        for a in (2, 1, 0):
            add('powm %d' % a + t, lambda v, S0=S0: linalg.powm(S0, v), a, NUMS)
        add('powm -1' + t, lambda v, S0=S0: linalg.powm(S0, v), -1, (int, np.int64, float, np.float32))
        add('powm half' + t, lambda v, S0=S0: linalg.powm(S0, v), 0.5, REALS)
        for f in ('tyler', 'empirical'):
            for flag in ('store_precision', 'assume_centered') if f == 'empirical' else ('verbosity',):
                for v in (False, True):
                    add('%s %s %s' % (f, flag, v) + t, lambda v, f=f, flag=flag, X=X, cplx=cplx: (lambda e: [e.covariance_, e.get_precision()])(
                        (est.make('tyler', None, cplx, **{flag: v}) if f == 'tyler' else (base.ComplexEmpiricalCovariance if cplx else base.RealEmpiricalCovariance)(**{flag: v})).fit(X)),
                        v, (bool, np.bool_))
        for n in ('trace', 'determinant', 'element', 'None'):
            add('normalisation %s' % n + t, lambda v, S0=S0: cov.get_normalisation_function(v)(S0), n, (str, np.str_))
            add('tyler class normalisation %s' % n + t, lambda v, X=X, cplx=cplx: est.make('tyler', None, cplx, normalisation=v).fit(X).covariance_, n, (str, np.str_))
        for law in ('normal', 't'):
            d = prob.complex_multivariate_normal if law == 'normal' else prob.complex_multivariate_t
            m = X[0]
            kw = (lambda m, C, df=3: dict(mean=m, cov=C)) if law == 'normal' else (lambda m, C, df=3: dict(loc=m, shape=C, df=df))
            if law == 't':
                add('t df' + t, lambda v, kw=kw, d=d, m=m, S0=S0, X=X: [d.logpdf(X, **kw(m, S0, v)), d(**kw(m, S0, v)).pdf(X)], 3, NUMS)
                add('t rvs df' + t, lambda v, kw=kw, d=d, m=m, S0=S0: d.rvs(size=3, random_state=3, **kw(m, S0, v)), 3, NUMS)
            add(law + ' size' + t, lambda v, kw=kw, d=d, m=m, S0=S0: d.rvs(size=v, random_state=3, **kw(m, S0)), 3, INTS)
            add(law + ' frozen size' + t, lambda v, kw=kw, d=d, m=m, S0=S0: d(**kw(m, S0)).rvs(size=v, random_state=3), 3, INTS)
            add(law + ' state' + t, lambda v, kw=kw, d=d, m=m, S0=S0: d.rvs(size=3, random_state=v, **kw(m, S0)), 3, INTS)
            add(law + ' list point' + t, lambda v, kw=kw, d=d, m=m, S0=S0: d.logpdf(v(m), **kw(m, S0)), None, (lambda _: np.array, lambda _: list, lambda _: tuple))
            add(law + ' list location' + t, lambda v, kw=kw, d=d, m=m, S0=S0, X=X: [d.logpdf(X, **kw(v(m), S0)), d(**kw(v(m), S0)).logpdf(X)], None, (lambda _: np.array, lambda _: list, lambda _: tuple))
            add(law + ' list shape' + t, lambda v, kw=kw, d=d, m=m, S0=S0, X=X: [d.logpdf(X, **kw(m, v(S0))), d(**kw(m, v(S0))).logpdf(X)], None, (lambda _: np.array, lambda _: (lambda a: a.tolist())))
        S1 = 'sample_%s' % ('complex_' if cplx else '')
        seeded = lambda f: (lambda v: (np.random.seed(3), f(v))[1])
        add(S1 + 'standard p', seeded(lambda v, S1=S1: getattr(gen, S1 + 'standard_normal_distribution')(v, 5)), 2, INTS)
        add(S1 + 'standard N', seeded(lambda v, S1=S1: getattr(gen, S1 + 'standard_normal_distribution')(2, v)), 5, INTS)
        add(S1 + 'normal N', seeded(lambda v, S1=S1, S0=S0: getattr(gen, S1 + 'normal_distribution')(v, S0)), 5, INTS)
        g = 'generate_%s' % ('complex_' if cplx else '')
        for b in (False, True):
            add(g + 'covariance p %s' % b, seeded(lambda v, g=g, b=b: getattr(gen, g + 'covariance')(v, unit_det=b)), 3, INTS)
            add(g + 'covariance flag %s' % b, seeded(lambda v, g=g: getattr(gen, g + 'covariance')(3, unit_det=v)), b, (bool, np.bool_, int))
        add(g + 'stiefel p', seeded(lambda v, g=g: getattr(gen, g + 'stiefel')(v, 2)), 3, INTS)
        add(g + 'stiefel k', seeded(lambda v, g=g: getattr(gen, g + 'stiefel')(3, v)), 2, INTS)
    for f in ('gamma', 'lognormal'):
        add(f + ' N', (lambda f: lambda v: (np.random.seed(3), getattr(gen, 'generate_textures_%s_dist' % f)(v))[1])(f), 6, INTS)
    for r in (2, 3, 0, 1):
        for p in (9, 45):
            add('toeplitz whole rho %d %d' % (r, p), lambda v, p=p: linalg.ToeplitzMatrix(v, p), r, (float, int, np.int64, np.int32, np.int16, np.int8, np.uint8, np.float32, complex))
    add('toeplitz rho -2', lambda v: linalg.ToeplitzMatrix(v, 20), -2, (float, int, np.int64, np.int32, np.int16, np.int8, np.float32, complex))
    add('toeplitz p', lambda v: linalg.ToeplitzMatrix(0.5, v), 4, INTS)
    add('toeplitz rho', lambda v: linalg.ToeplitzMatrix(v, 4), 0.5, REALS + (complex, np.complex64))
    # structured
    Xk = data.gauss(14, 4, True, 4)
    for i in (1, 2):
        add('MM size %d' % i, lambda v, i=i: struct.estimation_cov_kronecker_MM(Xk, *((v, 2) if i == 1 else (2, v)), iter_max=4), 2, INTS)
        add('MM class size %d' % i, lambda v, i=i: struct.KroneckerEllipticalMM(*((v, 2) if i == 1 else (2, v)), iter_max=4).fit(Xk).covariance_, 2, INTS)
    add('MM iter_max', lambda v: struct.estimation_cov_kronecker_MM(Xk, 2, 2, iter_max=v), 4, INTS)
    add('MM tol', lambda v: struct.estimation_cov_kronecker_MM(Xk, 2, 2, tol=v, iter_max=6), 1, NUMS)
    A, B = c13.unit(c13.S(2, True)), c13.S(2, True)
    for i in (0, 1):
        add('kronecker student cost %d' % i, lambda v, i=i: [np.real(struct._generate_cost_function_kronecker_student(Xk, v, Xk[0]*i)(A, B))] +
            list(struct._generate_egrad_function_kronecker_student(Xk, 2, 2, v, Xk[0]*i)(A, B)), 3, NUMS)
    # manifolds
    x, y = c13.S(2, True), c13.S(2, True, 1)
    u, w = c13.H(2, True), c13.H(2, True, 1)
    use = lambda M, x, y, u, w: [M.inner(x, u, w), M.norm(x, u), M.dist(x, y), M.exp(x, u), M.log(x, y), M.retr(x, u), M.transp(x, y, u), M.egrad2rgrad(x, u), M.dim]
    v = lambda i: np.abs(data.gauss(3, 1, False, i)) + .2
    for nm, cls, n, z in (('hpd', man.HermitianPositiveDefinite, 2, (x, y, u, w)), ('spv', man.StrictlyPositiveVectors, 3, (v(1), v(2), v(3), v(4))),
                          ('shpd', man.SpecialHermitianPositiveDefinite, 2, (c13.unit(x), c13.unit(y)))):
        if nm == 'shpd':
            M = cls(2)
            z += (M.proj(z[0], u), M.proj(z[0], w))
        add(nm + ' n', lambda v, cls=cls, z=z: use(cls(v), *z), n, INTS)
        add(nm + ' k', lambda v, cls=cls, n=n, z=z: use(cls(n, v), *z), 1, INTS)
        add(nm + ' stack', lambda v, cls=cls, n=n, z=z: use(cls(n, v), *[(lambda q: q.T.copy() if nm == 'spv' and False else q)(np.stack([q, q]) if q.ndim == 2 and q.shape[1] > 1 else np.hstack([q, q]))
                                                                      for q in z]), 2, INTS)
        add(nm + ' tangent factor', lambda v, cls=cls, n=n, z=z: [cls(n).exp(z[0], v*z[2]), cls(n).norm(z[0], v*z[2])], 2, NUMS)
    K = lambda **k: man.KroneckerHermitianPositiveElliptical(**dict(dict(a=2, b=2, alpha=1), **k))
    zk = [[c13.unit(x), x], [c13.unit(y), y]]
    zk += [list(K().proj(zk[0], [q, q])) for q in (u, w)]
    for nm in ('a', 'b'):
        add('kronecker ' + nm, lambda v, nm=nm: use(K(**{nm: v}), *zk), 2, INTS)
    add('kronecker alpha', lambda v: use(K(alpha=v), *zk), 1, NUMS)
    add('kronecker k', lambda v: use(K(k=v), *zk), 1, INTS)
    hp = [man.HermitianPositiveDefinite(2)]*2
    zp = [[x, y], [y, x], [u, w], [w, u]]
    add('product weight', lambda v: use(man.WeightedProduct(hp, [v, 2]), *zp), 3, NUMS)
    add('product weights', lambda v: use(man.WeightedProduct(hp, v([3, 2])), *zp), None, (lambda _: list, lambda _: tuple, lambda _: np.array))
    add('product manifolds', lambda v: use(man.WeightedProduct(v(hp), [3, 2]), *zp), None, (lambda _: list, lambda _: tuple))
    # online
    def online(rate, X=data.gauss(5, 2, True, 1), mode='constant'):
        e = StochasticGradientCovarianceEstimator(man.HermitianPositiveDefinite(2), lambda x, A: A - x.T @ x.conj(), rate)
        e.fit(X, init=np.eye(2, dtype=complex), lr_update=mode)
        return [e.covariance_, e.estimate_]
    for mode in ('constant', 'inverse iteration'):
        add('online rate ' + mode, lambda v, mode=mode: online(v, mode=mode), -1, (int, np.int64, float, np.float64, np.float32))
        add('online mode ' + mode, lambda v: online(-0.1, mode=v), mode, (str, np.str_))
    # arrays of features and batches
    Z = data.gauss(8, 2, False, 5).reshape(4, 4, 1)*[1., 2.]

    def batch(v, cls=base.CovariancesEstimation):
        return cls(base.RealEmpiricalCovariance(), n_jobs=v).transform(np.array(Z))
    add('batch workers', batch, 1, INTS)
    return out


def scalar(ctx, fn, value, kind, ref):
    r = numbers(fn(kind(value)))
    ctx.step()
    compare(ctx, r, ref, 1e-9, 'the result depends on the kind of number')
    ctx.see(*r[:1])


def plan(tier):
    sizes = SIZES + ([(9, 120), (1, 4)] if tier == 'thorough' else [])
    return [('parameters', k) for k in range(8)] + [('types', p, N, part) for p, N in sizes for part in range(16)] + [('nested', p, N) for p, N in sizes]


def run_unit(ctx, what, *u):
    if what == 'types':
        run_types(ctx, *u)
    elif what == 'nested':
        run_nested(ctx, *u)
    else:
        for j, (name, fn, value, kinds) in enumerate(parameters()):
            if j % 8 != u[0]:
                continue
            ref = None
            for k in kinds:
                if ref is None:
                    ref = numbers(fn(k(value)))
                ctx.run('parameter %s as %s' % (name, getattr(k, '__name__', 'kind') + str(kinds.index(k))), scalar, ctx, fn, value, k, ref)
