"""C30: a request that has no meaning is refused with an exception, its well-formed sibling is
answered, and a fitted object that refused requests answers everything else as before: every kind
of malformed request at every place it can stand (entry, argument, size), and every sequence of
two refused requests followed by all the well-formed ones."""
import copy
import itertools
import logging

import numpy as np

from mc import c13, data, est
from robuststats.estimation import base, covariance as cov, structured as struct
from robuststats.models import manifolds as man, mappings as mp, probability as prob
from robuststats.online.estimation import StochasticGradientCovarianceEstimator
from robuststats.utils import checking, generation_data as gen, linalg

BOUNDS = {
    'quick': 'every estimator class, p<=3: nan/inf at every entry of the data, every wrong shape and number of columns, all ordered pairs of ~20 refused requests (p=2; else neighbouring pairs); '
             'Kronecker sizes up to 4x4 against p<=6; all shapes up to 4x4(x4) for the mappings; laws x malformed parameters p<=3; all types x values for the checking helpers',
    'thorough': 'additionally p=4 and all ordered triples of refused requests',
}
RULE = 'a case is a malformed request (or sequence of them) with its well-formed sibling'


def quiet(fn):
    logging.disable(logging.CRITICAL)
    try:
        with np.errstate(all='ignore'):
            return fn()
    finally:
        logging.disable(logging.NOTSET)


def refuse(ctx, msg, fn):
    quiet(lambda: ctx.raises(fn, msg))
    ctx.step()


def machines(p, cplx):
    """name, estimator that is not fitted"""
    out = [(n, e) for n, e in c13.estimators(p, cplx)]
    out += [('natural gradient', est.make('tyler', None, cplx, iter_max=6, method='natural gradient'))]
    if cplx and p > 1:
        out += [('kronecker MM', struct.KroneckerEllipticalMM(1, p, iter_max=3)),
                ('kronecker student', struct.KroneckerStudent(1, p, 3.5))]
    return out


def answers(e, X, Y, S):
    out = [copy.deepcopy(e.covariance_), copy.deepcopy(e.location_)]
    out += [e.mahalanobis(Y), e.error_norm(S), e.error_norm(S, norm='spectral', scaling=False)]
    if hasattr(e, 'get_precision'):
        out.append(copy.deepcopy(e.get_precision()))
    try:
        out.append(e.score(Y))
    except (AttributeError, NotImplementedError):
        pass                                # Huber's and the Kronecker MM scores are not implemented
    return [np.asarray(o) for o in out]


def poisoned(X, i, v):
    Y = X.copy()
    Y[i] = v
    return Y


def bad_data(X, cplx):
    out = [('a vector', X[0]), ('a column', X[:, 0]), ('three dimensions', X[None]), ('no observations', X[:0]), ('no features', X[:, :0]),
           ('nothing', None), ('all nan', X*np.nan)]
    for v in (np.nan, np.inf, -np.inf) + ((complex(1, np.nan), complex(np.inf, 1)) if cplx else ()):
        out += [('%s at %s' % (v, i), poisoned(X, i, v)) for i in np.ndindex(X.shape)]
    if not cplx:
        out.append(('complex data', X*(1+1j)))
    return out


def requests(e, X, Y, S, cplx):
    """name -> malformed request to a fitted estimator"""
    out = []
    p = X.shape[1]
    for w in ('mahalanobis', 'score'):
        if not hasattr(e, w):
            continue
        f = getattr(e, w)
        out += [('%s of nan' % w, lambda f=f: f(poisoned(Y, (0, p-1), np.nan))), ('%s of inf' % w, lambda f=f: f(poisoned(Y, (len(Y)-1, 0), np.inf))),
                ('%s of a vector' % w, lambda f=f: f(Y[0])), ('%s of three dimensions' % w, lambda f=f: f(Y[None])),
                ('%s of another number of columns' % w, lambda f=f: f(np.concatenate([Y, Y[:, :1]], axis=1)))]
        if p > 1:
            out.append(('%s of too few columns' % w, lambda f=f: f(Y[:, 1:])))
    out += [('error norm %r' % n, lambda n=n: e.error_norm(S, norm=n)) for n in ('fro', 'Frobenius', 'l2', None)]
    out += [('error norm against another size', lambda: e.error_norm(np.eye(p+1)))] if p > 1 else []
    out += [('fit on %s' % n, lambda Z=Z: e.fit(Z)) for n, Z in bad_data(X, cplx)[:7] + bad_data(X, cplx)[-1:]]
    return out


def one(ctx, e, X, Y, S, cplx, msg, Z):
    refuse(ctx, 'fit on ' + msg, lambda: copy.deepcopy(e).fit(Z))


def twofold(ctx, e, X, Y, S, cplx, seq):
    f = quiet(lambda: copy.deepcopy(e).fit(X))
    want = quiet(lambda: answers(f, X, Y, S))
    for i in seq:
        rs = requests(f, X, Y, S, cplx)
        refuse(ctx, rs[i][0], rs[i][1])
    got = quiet(lambda: answers(f, X, Y, S))
    for a, b in zip(got, want):
        ctx.ok(np.array_equal(a, b), 'the object answers differently after refusing %s' % ', '.join(rs[i][0] for i in seq), a, b)
    ctx.see(*got[:2])
    if seq[0] == seq[-1]:
        np.random.seed(3)                   # the natural gradient may start at random
        quiet(lambda: f.fit(Y))
        np.random.seed(3)
        g = quiet(lambda: copy.deepcopy(e).fit(Y))
        ctx.ok(np.array_equal(f.covariance_, g.covariance_), 'a fit after a refusal differs from a first fit')
    ctx.trace()


def unfitted(ctx, e, X, Y, S, cplx):
    for w, a in (('mahalanobis', (Y,)), ('score', (Y,)), ('get_precision', ()), ('error_norm', (S,)), ('transform', (X,))):
        # (a Student-t score before fit logs an error and gives None instead, the MM score is a stub)
        if hasattr(type(e), w) and not (w == 'score' and ('student' in type(e).__name__.lower() or 'MM' in type(e).__name__)):
            refuse(ctx, '%s before fit' % w, lambda: getattr(copy.deepcopy(e), w)(*a))
    ctx.ok(quiet(lambda: copy.deepcopy(e).fit(X)).covariance_.shape == S.shape, 'well-formed data')


def est_unit(ctx, p, cplx, which):
    tag = 'complex' if cplx else 'real'
    X, Y = data.gauss(4*p + 1, p, cplx, 1), data.gauss(3*p + 2, p, cplx, 2)
    S = c13.S(p, cplx)
    for name, e in machines(p, cplx)[which:which+1]:
        for n, Z in bad_data(X, cplx):
            ctx.run('%s p%d %s fit on %s' % (tag, p, name, n), one, ctx, e, X, Y, S, cplx, n, Z)
        ctx.run('%s p%d %s not fitted' % (tag, p, name), unfitted, ctx, e, X, Y, S, cplx)
        f = quiet(lambda: copy.deepcopy(e).fit(X))
        k = len(requests(f, X, Y, S, cplx))
        if p == 2 or ctx.thorough:
            seqs = itertools.product(range(k), repeat=3 if ctx.thorough and p == 2 and name in ('tyler precision=True', 'empirical') else 2)
        else:
            seqs = [(i, (i + d) % k) for i in range(k) for d in (0, 1)]
        for seq in seqs:
            ctx.run('%s p%d %s after refusals %s' % (tag, p, name, seq), twofold, ctx, e, X, Y, S, cplx, seq)


# ---- parameters of the estimators
def param_table(p, cplx):
    X = data.gauss(4*p + 2, p, cplx, 1)
    dt = complex if cplx else float
    I = np.eye(p, dtype=dt)
    out = []
    for d in (0, -1, -.5, -1e-300):
        out.append(('degrees of freedom %r' % d, lambda d=d: est.call('student', d, X)[0], lambda: est.call('student', .5, X)[0]))
        out.append(('degrees of freedom %r (class)' % d, lambda d=d: est.make('student', d, cplx).fit(X), lambda: est.make('student', .5, cplx).fit(X)))
    for q in (0, -1, -.5, 1.5, np.nan):
        out.append(('quantile %r (class)' % q, lambda q=q: est.make('huber', q, cplx).fit(X), lambda: est.make('huber', .5, cplx).fit(X)))
    for l, b in ((-1, 1), (0, 1), (1, -1), (-1, -1), (0, 0), (-1e-300, .5), (.5, -1e-300)):
        out.append(('Huber weights with threshold %r and scale %r' % (l, b), lambda l=l, b=b: cov._huber_m_estimator_function(np.ones(3), l, b), lambda: cov._huber_m_estimator_function(np.ones(3), 1., 1.)))
    for m in ('fixed', 'Fixed-point', 'gradient', None, '', 'natural  gradient'):
        out.append(('method %r' % (m,), lambda m=m: est.make('tyler', None, cplx, method=m).fit(X), lambda: est.make('tyler', None, cplx, method='fixed-point').fit(X)))
    for k in ('tyler', 'student', 'huber'):
        par = est.PARS[k][0]
        good = lambda k=k, par=par: est.make(k, par, cplx).fit(X, init=2*I)
        for n, i in (('too large', np.eye(p+1, dtype=dt)), ('a vector', np.ones(p, dt)), ('negative', -I), ('zero', 0*I), ('rectangular', np.ones((p, p+1), dt)),
                     ('nan', I*np.nan), ('too small', np.eye(p-1, dtype=dt))):
            if p > 1 or n in ('too large', 'negative', 'nan'):
                out.append(('%s from a start that is %s' % (k, n), lambda k=k, par=par, i=i: est.make(k, par, cplx).fit(X, init=i), good))
    return out


# ---- laws
def law_table(p, cplx):
    dt = complex if cplx else float
    z = np.arange(p).astype(dt)
    S = c13.S(p, cplx)
    bad = [('negative definite', z, -S), ('cov of another size', z, np.eye(p+1, dtype=dt)), ('mean of another size', np.zeros(p+1, dt), S),
           ('rectangular', z, np.ones((p, p+1), dt)), ('mean of two dimensions', np.zeros((1, p+1), dt), S), ('three dimensions', z, S[None]),
           ('indefinite', z, S - 2*np.linalg.eigvalsh(S)[-1]*np.diag((np.arange(p) == 0)*1.).astype(dt))]
    if p == 1:                              # a one by one matrix is also a number
        bad = [b for b in bad if b[0] in ('negative definite', 'cov of another size')]
    out = []
    for nm, d, kw in (('normal', prob.complex_multivariate_normal, lambda m, C: dict(mean=m, cov=C)),
                      ('t', prob.complex_multivariate_t, lambda m, C: dict(loc=m, shape=C, df=3))):
        for n, m, C in bad:
            for w in ('pdf', 'logpdf'):
                out.append(('%s %s, %s' % (nm, w, n), lambda d=d, w=w, kw=kw, m=m, C=C: getattr(d, w)(z, **kw(m, C)),
                            lambda d=d, w=w, kw=kw: getattr(d, w)(z, **kw(z, S))))
            out.append(('%s frozen, %s' % (nm, n), lambda d=d, kw=kw, m=m, C=C: d(**kw(m, C)), lambda d=d, kw=kw: d(**kw(z, S))))
            if 'definite' not in n:
                out.append(('%s sample, %s' % (nm, n), lambda d=d, kw=kw, m=m, C=C: d.rvs(size=2, random_state=1, **kw(m, C)),
                            lambda d=d, kw=kw: d.rvs(size=2, random_state=1, **kw(z, S))))
        for n, x in (('a point of another size', np.zeros(p+1, dt)), ('points of another size', np.zeros((4, p+1), dt))):
            if p == 1 and n[0] == 'a':
                continue
            out.append(('%s %s' % (nm, n), lambda d=d, kw=kw, x=x: d.logpdf(x, **kw(z, S)), lambda d=d, kw=kw: d.logpdf(z, **kw(z, S))))
            out.append(('%s frozen %s' % (nm, n), lambda d=d, kw=kw, x=x: d(**kw(z, S)).logpdf(x), lambda d=d, kw=kw: d(**kw(z, S)).logpdf(z)))
    for C, n in ((0*S, 'zero'), (np.ones((p, p), dt), 'singular')):
        if p > 1 or n == 'zero':
            for w in ('pdf', 'logpdf'):
                out.append(('normal %s, %s covariance' % (w, n), lambda w=w, C=C: getattr(prob.complex_multivariate_normal, w)(z, z, C),
                            lambda w=w: getattr(prob.complex_multivariate_normal, w)(z, z, S)))
            out.append(('normal frozen, %s covariance' % n, lambda C=C: prob.complex_multivariate_normal(z, C), lambda: prob.complex_multivariate_normal(z, S)))
    T = prob.complex_multivariate_t
    for df in (0, -1, -.5):
        good = lambda: T.logpdf(z, loc=z, shape=S, df=.5)
        out += [('t density df=%r' % df, lambda df=df: T.pdf(z, loc=z, shape=S, df=df), good), ('t log-density df=%r' % df, lambda df=df: T.logpdf(z, loc=z, shape=S, df=df), good),
                ('t frozen df=%r' % df, lambda df=df: T(loc=z, shape=S, df=df), good), ('t sample df=%r' % df, lambda df=df: T.rvs(loc=z, shape=S, df=df, size=2), good)]
    return out


# ---- mappings
def map_table(p, cplx):
    """p is the largest extent of the shapes"""
    out = []
    dims = range(1, p + 2)
    shapes = [s for r in (1, 2, 3) for s in itertools.product(dims, repeat=r)]
    for m in range(1, p + 3, 2):      # nothing to map, but of a shape without a meaning
        out += [('empty stack of real covariances of size %d to complex' % m, lambda m=m: mp.covariancestocomplex(np.zeros((0, m, m))), lambda: mp.covariancestocomplex(np.zeros((0, 2, 2)))),
                ('empty real array with %d columns to complex' % m, lambda m=m: mp.arraytocomplex(np.zeros((0, m))), lambda: mp.arraytocomplex(np.zeros((3, 2))))]
    for s in shapes:
        a = np.arange(1., 1. + np.prod(s)).reshape(s)
        c = a*(1 + .5j)
        if s[-1] % 2:
            out.append(('real array of shape %s to complex' % (s,), lambda a=a: mp.arraytocomplex(a), lambda s=s: mp.arraytocomplex(np.ones(s[-2:-1] + (s[-1]+1,)))))
        if len(s) == 3:
            out.append(('complex array of shape %s to real' % (s,), lambda c=c: mp.arraytoreal(c), lambda c=c: mp.arraytoreal(c[0])))
        if len(s) != 2 or s[0] != s[1] or s[0] % 2:
            out.append(('real covariance of shape %s to complex' % (s,), lambda a=a: mp.covariancetocomplex(a), lambda: mp.covariancetocomplex(np.eye(2))))
        if len(s) != 2 or s[0] != s[1]:
            out.append(('complex covariance of shape %s to real' % (s,), lambda c=c: mp.covariancetoreal(c), lambda: mp.covariancetoreal(np.eye(2)+0j)))
        if len(s) != 3 or s[1] != s[2] or s[1] % 2:
            out.append(('real covariances of shape %s to complex' % (s,), lambda a=a: mp.covariancestocomplex(a), lambda: mp.covariancestocomplex(np.eye(2)[None])))
        if len(s) != 3 or s[1] != s[2]:
            out.append(('complex covariances of shape %s to real' % (s,), lambda c=c: mp.covariancestoreal(c), lambda: mp.covariancestoreal(np.eye(2)[None]+0j)))
        if len(s) == 1:
            n = s[0]
            if int(round(n**.5))**2 != n:
                out.append(('unvec of length %d' % n, lambda a=a: linalg.unvec(a), lambda: linalg.unvec(np.ones(4))))
            if not any(k*(k+1)//2 == n for k in range(n+1)):
                out.append(('unvech of length %d' % n, lambda a=a: linalg.unvech(a), lambda: linalg.unvech(np.ones(3))))
    return out


# ---- Kronecker sizes
def kron_table(p, cplx):
    X = data.gauss(3*p + 2, p, True, 4)
    out = []
    for a, b in itertools.product(range(0, 5), repeat=2):
        if a*b == p:
            continue
        ok = lambda: struct.estimation_cov_kronecker_MM(X, 1, p, iter_max=2)[0]
        out += [('majorisation %dx%d of dimension %d' % (a, b, p), lambda a=a, b=b: struct.estimation_cov_kronecker_MM(X, a, b, iter_max=2)[0], ok),
                ('KroneckerEllipticalMM %dx%d of dimension %d' % (a, b, p), lambda a=a, b=b: struct.KroneckerEllipticalMM(a, b, iter_max=2).fit(X), ok),
                ('KroneckerStudent %dx%d of dimension %d' % (a, b, p), lambda a=a, b=b: struct.KroneckerStudent(a, b, 3).fit(X),
                 lambda: struct.KroneckerStudent(1, p, 3).fit(X))]
    for df in (0, -1, -.5):
        out.append(('KroneckerStudent df=%r' % df, lambda df=df: struct.KroneckerStudent(1, p, df).fit(X), lambda: struct.KroneckerStudent(1, p, .5).fit(X)))
    return out


# ---- weights of products
def product_table(p, cplx):
    h = man.HermitianPositiveDefinite(p)
    out = []
    pts = lambda k: [np.eye(p) + 0j]*k
    for k in (2, 3, 4):
        for short in range(0, k):
            w = [1.]*short
            good = man.WeightedProduct([h]*k, [1.]*k)
            M = lambda k=k, w=w: man.WeightedProduct([h]*k, w)
            for nm, use in (('norm', lambda m, k: m.norm(pts(k), pts(k))), ('inner', lambda m, k: m.inner(pts(k), pts(k), pts(k))), ('dist', lambda m, k: m.dist(pts(k), pts(k))),
                            ('gradient', lambda m, k: m.egrad2rgrad(pts(k), pts(k)))):
                if nm in ('dist',) and short:
                    pass
                out.append(('%s of a product of %d with %d weights' % (nm, k, short), lambda M=M, use=use, k=k: use(M(), k), lambda good=good, use=use, k=k: use(good, k)))
    return out


# ---- samplers
def sampler_table(p, cplx):
    c = 'complex_' if cplx else ''
    dt, odt = (complex, float) if cplx else (float, complex)
    good = c13.S(p, cplx)
    tau = np.ones((5, 1))
    out = []
    for f, first in (('normal', 5), ('compound', tau), ('tau_UUH', tau)):
        fn = getattr(gen, 'sample_%s%s_distribution' % (c, f), None)
        if fn is None:
            continue
        bads = [('of the other field', np.eye(p, dtype=odt)), ('in single precision', good.astype(np.complex64 if cplx else np.float32)), ('of integers', np.eye(p, dtype=int))]
        if f != 'tau_UUH' and p > 1:
            bads.append(('rectangular', good[:1]))
        for n, C in bads:
            out.append(('%s%s sample with a covariance %s' % (c, f, n), lambda fn=fn, first=first, C=C: fn(first, C), lambda fn=fn, first=first: fn(first, good)))
    out.append(('%sstandard normal, negative number' % c, lambda: getattr(gen, 'sample_%sstandard_normal_distribution' % c)(p, -1),
                lambda: getattr(gen, 'sample_%sstandard_normal_distribution' % c)(p, 1)))
    return out


# ---- online and batch
def stream_table(p, cplx):
    h = man.HermitianPositiveDefinite(p)
    I = np.eye(p) + 0j
    X = data.gauss(3*p, p, True, 1)
    e = lambda: StochasticGradientCovarianceEstimator(h, lambda x, A: A - x.T @ x.conj(), -.1)
    good = lambda: e().fit(X, init=I)
    out = [('online fit on %s' % n, lambda Y=Y: e().fit(Y, init=I), good) for n, Y in
           [d for d in bad_data(X, True) if d[0] not in ('no features', 'no observations')]] + \
          [('online fit without a start', lambda: e().fit(X).covariance_, good), ('online fit on another number of columns', lambda: e().fit(data.gauss(5, p+1, True, 1), init=I), good)]
    Z = np.stack([data.gauss(4*p, p, cplx, i) for i in range(3)])
    E = base.ComplexEmpiricalCovariance if cplx else base.RealEmpiricalCovariance
    for nm, B in (('batch', base.CovariancesEstimation), ('features', base.FeaturesEstimation)):
        good = lambda B=B: B(E()).transform(Z)
        bads = [('two dimensions', Z[0]), ('a vector', Z[0, 0]), ('four dimensions', Z[None]), ('all nan', Z*np.nan)]
        bads += [('%s at %s' % (v, i), poisoned(Z, i, v)) for v in (np.nan, np.inf) for i in ((0, 0, 0), (1, 2, p-1), (2, 4*p-1, 0))]
        bads += [('empty observations', Z[:, :0])]
        if not cplx:
            bads.append(('complex data', Z*1j))
        for n, Y in bads:
            out.append(('%s estimation on %s' % (nm, n), lambda B=B, Y=Y: B(E()).transform(Y), good))
            out.append(('%s estimation by three processes on %s' % (nm, n), lambda B=B, Y=Y: B(E(), n_jobs=1).transform(Y), good))
        for nj in (0, 'a'):
            out.append(('%s estimation by %r jobs' % (nm, nj), lambda B=B, nj=nj: B(E(), n_jobs=nj).transform(Z), good))
        for x in (None, 3, 'tyler', object()):
            out.append(('%s estimation with the estimator %r' % (nm, x if not type(x) is object else 'object'), lambda B=B, x=x: B(x).transform(Z), good))
    return out


# ---- argument checks
def check_table(p, cplx):
    out = []
    vals = [3, 3., 0, 0., -1, -1., 1e-300, -1e-300, np.inf, -np.inf, True, False, np.float64(2), np.float64(0), np.float64(-2), np.int64(0), np.int64(5), np.int8(-3), np.nan]
    for v in vals:
        for strictly in (True, False, None):
            kw = {} if strictly is None else dict(strictly=strictly)
            good = v > 0 or (strictly is False and v == 0)
            call = lambda v=v, kw=kw: checking.check_positive(v, 'the name', **kw)
            out.append(('check_positive(%r, %s)' % (v, kw), (call, ValueError, ('the name', str(v))) if not good else None, call if good else None))
    things = [(1, int), (1., float), (True, bool), ('a', str), (None, type(None)), ([1], list), ((1,), tuple), (np.float64(1), np.float64), (np.ones(2), np.ndarray), (1j, complex)]
    types = [int, float, bool, str, list, tuple, np.ndarray, complex, np.float64]
    for (v, t), k in itertools.product(things, (1, 2, 3)):
        for acc in itertools.combinations(types, k):
            good = t in acc
            call = lambda v=v, acc=acc: checking.check_type(v, 'the name', list(acc))
            out.append(('check_type(%r, %s)' % (v, [a.__name__ for a in acc]), (call, TypeError, ('the name',)) if not good else None, call if good else None))
    words = ['a', 'b', 'ab', '', 1, 0, None, 2.5]
    for v, k in itertools.product(words, (0, 1, 2, 3)):
        for acc in itertools.combinations(words, k):
            good = v in acc
            call = lambda v=v, acc=acc: checking.check_value(v, 'the name', list(acc))
            out.append(('check_value(%r, %s)' % (v, acc), (call, ValueError, ('the name',)) if not good else None, call if good else None))
    return out


def checked(ctx, bad, good):
    ctx.step()
    if good:
        ctx.ok(good() is None, 'an acceptable value')
        return
    call, exc, words = bad
    try:
        call()
    except exc as e:
        for w in words:
            ctx.ok(w in str(e), 'the message does not tell %r' % w, str(e))
        return
    ctx.ok(False, 'not refused')


TABLES = dict(parameters=param_table, laws=law_table, mappings=map_table, kronecker=kron_table, products=product_table, samplers=sampler_table, streams=stream_table, checks=check_table)


def pair(ctx, name, bad, good):
    refuse(ctx, name, bad)
    r = quiet(good)
    ctx.ok(r is not None, 'the well-formed sibling gives nothing')
    # refusing leaves no trace: the same again
    refuse(ctx, name + ' (again)', bad)
    ctx.step()


def plan(tier):
    th = tier == 'thorough'
    ps = (1, 2, 3) + ((4,) if th else ())
    out = [('est', p, c, i) for p in ps for c in (False, True) for i in range(len(machines(p, c)))]
    for t in TABLES:
        if t == 'checks':
            out.append((t, 1, False))
        elif t in ('mappings', 'kronecker', 'products'):
            out += [(t, p, True) for p in ((3,) if t == 'mappings' and not th else (4,) if t == 'mappings' else range(1, 7) if t == 'kronecker' else (1, 2))]
        else:
            out += [(t, p, c) for p in ps for c in (False, True)]
    return out


def run_unit(ctx, what, p, cplx, *which):
    if what == 'est':
        return est_unit(ctx, p, cplx, *which)
    for name, bad, good in TABLES[what](p, cplx):
        if what == 'checks':
            ctx.run(name, checked, ctx, bad, good)
        else:
            ctx.run('%s p%d %s: %s' % ('complex' if cplx else 'real', p, what, name), pair, ctx, name, bad, good)
