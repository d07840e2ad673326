"""C08: location, covariance, Mahalanobis distances, Gaussian score and every error
norm of every fitted estimator class are compared with the textbook formulas on all
enumerated data sets, comparison matrices and options."""
import itertools

import numpy as np

from mc import data, est, ref
from robuststats.estimation import base, covariance as cov, structured as struct
from robuststats.online.estimation import StochasticGradientCovarianceEstimator
from robuststats.models.manifolds import HermitianPositiveDefinite

BOUNDS = {
    'quick': 'multisets (p=1: N=2,3; p=2: N=3,4; p=3: N=4; real/complex), grid p=1..12, 50, N up to 2100 x 6 families; empirical (centred or not, precision stored or not; means up to 1e6 times the spread), '
             'Tyler (both methods), Student, Huber, Kronecker MM/Student, online; test sets of 1..9 rows, layouts, real test data for complex estimators; '
             'comparison matrices x {frobenius, spectral} x scaling x squared',
    'thorough': 'as quick with N one larger',
}
RULE = 'a case is (data set, estimator)'
GRID = [(1, 5), (2, 7), (3, 12), (4, 30), (7, 25), (12, 90), (3, 2100), (50, 160)]


def plan(tier):
    th = tier == 'thorough'
    units = []
    for cplx in (False, True):
        for p, Ns in ((1, (2, 3)), (2, (3, 4)), (3, (4,) + ((5,) if th else ()))):
            for N in Ns:
                n = len(sets(p, cplx, N))
                for lo, hi in data.chunks(n, 60):
                    units.append(('alpha', cplx, p, N, lo, hi))
        for p, N in GRID:
            for fam in ('gauss', 'corr', 'heavy', 'scaled', 'small', 'big'):
                units.append(('grid', cplx, p, N, fam))
        units.append(('few', cplx))
    for a, b, N in ((2, 2, 14), (3, 2, 25), (1, 3, 9)):
        units.append(('kron', a, b, N))
    return units


def sets(p, cplx, N):
    A = data.alphabet(p, cplx)
    out = []
    for idx in itertools.combinations_with_replacement(range(len(A)), N):
        X = np.array([A[i] for i in idx])
        if data.rank(X - X.mean(0)) == p:
            out.append((''.join(map(str, idx)), X))
    return out


def norm_checks(ctx, e, cplx):
    S = e.covariance_
    p = len(S)
    others = [('itself', S.copy()), ('zero', np.zeros_like(S)), ('eye', np.eye(p, dtype=S.dtype)), ('double', 2*S)]
    others += [('plus basis %d' % i, S + 0.5*H) for i, H in enumerate(data.hermitian_basis(p, cplx)) if i < 12]
    others += [('dense', data.spd(p, cplx, 'dense'))]
    if cplx:
        others += [('real', np.eye(p)), ('conjugate', S.conj())]
    for name, C in others:
        D = C - S
        for norm in ('frobenius', 'spectral'):
            v = np.linalg.norm(D, 'fro' if norm == 'frobenius' else 2)
            for scaling in (True, False):
                for squared in (True, False):
                    want = v**2/(p if scaling else 1)
                    want = want if squared else np.sqrt(want)
                    got = e.error_norm(C, norm=norm, scaling=scaling, squared=squared)
                    ctx.step()
                    ctx.ok(np.isreal(got), 'error norm is not real', got)
                    ctx.near(np.real(got), want, 1e-9*(want + np.linalg.norm(S)*1e-3) + 1e-300,
                             'error_norm against %s, %s, scaling=%s, squared=%s' % (name, norm, scaling, squared))
                    ctx.ok((got > 0) == bool(np.any(D != 0)), 'error norm is zero only for equal matrices', got, name)
                    ctx.see(got)
        ctx.near(e.error_norm(C), np.linalg.norm(D)**2/p, 1e-9*(np.linalg.norm(D)**2 + np.linalg.norm(S)*1e-3), 'default error_norm')
    ctx.raises(lambda: e.error_norm(S, norm='nuclear'), 'unknown norm accepted')


def tests(p, cplx, X):
    yield 'train', X
    yield 'one', data.gauss(1, p, cplx, 3)
    yield 'nine', data.gauss(9, p, cplx, 4, 'heavy')
    yield 'far', 1e3*data.gauss(3, p, cplx, 4) + 5
    for lay, Y in data.layouts(X[:4]):
        yield lay, Y
    if cplx:
        yield 'real data', data.gauss(4, p, False, 3)


def summaries(ctx, e, X, m, gaussian=True):
    cplx = np.iscomplexobj(e.covariance_)
    S, p = e.covariance_, X.shape[1]
    for name, Y in tests(p, cplx, X):
        Z = Y.astype(complex) if cplx else Y
        q = ref.quad(S, Z - m)
        got = e.mahalanobis(Y)
        ctx.step()
        ctx.ok(np.isrealobj(got) and np.shape(got) == (len(Y),), 'distances have the wrong form', got)
        ctx.near(got, q, 1e-8*np.linalg.cond(S)**.5*(1e-2 + np.max(np.abs(q))), 'Mahalanobis distances of ' + name)
        if gaussian:
            want = np.mean(ref.normal_logpdf(Z, m, S))
            got = e.score(Y)
            ctx.step()
            ctx.near(got, want, 1e-8*np.linalg.cond(S)**.5*(1 + abs(want)), 'Gaussian score of ' + name)
            ctx.see(got)


def empirical(ctx, X, full):
    cplx = np.iscomplexobj(X)
    N, p = X.shape
    for centred in (True, False):
        m = np.zeros(p) if centred else X.mean(0)
        S = (X - m).T @ (X - m).conj()/N
        if cplx:
            ctx.close(base.complex_empirical_covariance(X, assume_centered=centred), S, 1e-10, 'complex_empirical_covariance')
            for lay, Y in data.layouts(X):
                ctx.close(base.complex_empirical_covariance(Y, assume_centered=centred), S, 1e-10, 'complex_empirical_covariance, ' + lay)
            ctx.close(base.complex_empirical_covariance(X.tolist(), assume_centered=centred), S, 1e-10, 'complex_empirical_covariance of a list')
        for store in (True, False):
            e = (base.ComplexEmpiricalCovariance if cplx else base.RealEmpiricalCovariance)(
                store_precision=store, assume_centered=centred)
            r = e.fit(X)
            ctx.step()
            ctx.ok(r is e, 'fit does not return the estimator')
            ctx.near(e.location_, m, 1e-10*(1e-3 + np.max(np.abs(X))), 'location_')
            ctx.close(e.covariance_, S, 1e-9, 'covariance_')
            ctx.close(e.transform(X), S, 1e-9, 'transform returns the covariance')
            summaries(ctx, e, X, m)
            if store or full:
                norm_checks(ctx, e, cplx)
    if cplx:
        ctx.close(base.complex_empirical_covariance(X), (X - X.mean(0)).T @ (X - X.mean(0)).conj()/N, 1e-9,
                  'complex_empirical_covariance is centred by default')
    ctx.trace()


def deficient(ctx, X):
    """too few observations for an invertible estimate: location, covariance, error norms
    and (with the pseudo-inverse) distances of observations in the span"""
    cplx = np.iscomplexobj(X)
    N, p = X.shape
    for centred in (True, False):
        m = np.zeros(p) if centred else X.mean(0)
        Z = X - m
        S = Z.T @ Z.conj()/N
        if cplx:
            ctx.close(base.complex_empirical_covariance(X, assume_centered=centred), S, 1e-10, 'complex_empirical_covariance of few data')
        for store in (True, False):
            e = (base.ComplexEmpiricalCovariance if cplx else base.RealEmpiricalCovariance)(
                store_precision=store, assume_centered=centred).fit(X)
            ctx.step()
            ctx.near(e.location_, m, 1e-10*(1e-3 + np.max(np.abs(X))), 'location_ of few data')
            ctx.near(e.covariance_, S, 1e-10*np.max(np.abs(X))**2, 'covariance_ of few data')
            w = np.linalg.eigvalsh(S)
            if N > 1 and np.all((w > 1e-3*w[-1]) | (w < 1e-12*w[-1])):
                q = np.real(np.einsum('ni,ij,nj->n', Z.conj(), np.linalg.pinv(S, hermitian=True, rcond=1e-9), Z))
                ctx.near(e.mahalanobis(X), q, 1e-6*(1 + np.max(q)), 'distances of few data')
        if N > 1:
            norm_checks(ctx, e, cplx)
    ctx.see(S)
    ctx.trace()


def far_mean(ctx, X, off):
    """data whose spread is many orders of magnitude below their mean"""
    cplx = np.iscomplexobj(X)
    N, p = X.shape
    X = X + off*np.max(np.abs(X))*np.arange(1, p + 1)*(1 - 2j if cplx else 1)
    L = X.astype(np.clongdouble if cplx else np.longdouble)
    Z = L - L.mean(0)
    S = (Z.T @ Z.conj()/N).astype(X.dtype)
    tol = 1e-12*off
    if cplx:
        ctx.close(base.complex_empirical_covariance(X), S, tol, 'complex_empirical_covariance of data far from zero')
    e = (base.ComplexEmpiricalCovariance if cplx else base.RealEmpiricalCovariance)().fit(X)
    ctx.step()
    ctx.close(e.location_, L.mean(0).astype(X.dtype), 1e-14, 'location of data far from zero')
    ctx.close(e.covariance_, S, tol, 'covariance of data far from zero')
    tol = 1e-11*off*np.linalg.cond(S)
    q = ref.quad(S, Z.astype(X.dtype))
    ctx.near(e.mahalanobis(X), q, tol*(1 + np.max(q)), 'Mahalanobis distances of data far from zero')
    want = np.mean(ref.normal_logpdf(X, L.mean(0).astype(X.dtype), S))
    ctx.near(e.score(X), want, tol*(1 + abs(want)), 'Gaussian score of data far from zero')
    ctx.trace()


def robust(ctx, X, kind, par, kw):
    cplx = np.iscomplexobj(X)
    e = est.make(kind, par, cplx, **kw).fit(X)
    ctx.step()
    z = np.zeros(X.shape[1])
    ctx.near(e.location_, z, 0, 'location_ of a centred estimator')
    summaries(ctx, e, X, z, gaussian=kind == 'tyler')
    norm_checks(ctx, e, cplx)


def online(ctx, X):
    p = X.shape[1]
    e = StochasticGradientCovarianceEstimator(
        HermitianPositiveDefinite(p), lambda x, S: x.T @ x.conj() - S, 0.1)
    e.fit(X, init=np.eye(p, dtype=complex))
    ctx.step(len(X))
    summaries(ctx, e, X, np.zeros(p))
    norm_checks(ctx, e, True)


def kron(ctx, X, a, b, model):
    p = a*b
    m = np.zeros(p)
    if model == 'mm':
        e = struct.KroneckerEllipticalMM(a, b)
    else:
        e = struct.KroneckerStudent(a, b, 4, assume_centered=model == 'student')
        if model == 'student-mean':
            m = X.mean(0)
    e.fit(X)
    ctx.step()
    ctx.near(e.location_, m, 1e-12, 'location_')
    summaries(ctx, e, X, m, gaussian=False)
    norm_checks(ctx, e, True)


def run_unit(ctx, what, *u):
    if what == 'alpha':
        cplx, p, N, lo, hi = u
        for name, X in sets(p, cplx, N)[lo:hi]:
            tag = '%s p%d N%d #%s' % ('complex' if cplx else 'real', p, N, name)
            ctx.run(tag, empirical, ctx, X, False, X=X)
    elif what == 'few':
        cplx, = u
        for p in (1, 2, 3, 5, 8):
            for N in range(1, p + 1):
                for fam in ('gauss', 'big', 'small'):
                    for off in (0, 2.):
                        X = data.gauss(N, p, cplx, 0, fam)
                        X = X + off*np.max(np.abs(X))*(1j if cplx else 1)
                        ctx.run('few %s p%d N%d %s +%g' % (cplx, p, N, fam, off), deficient, ctx, X, X=X)
        for p, Ns in ((2, (1, 2, 3)), (3, (2, 3))):
            A = data.alphabet(p, cplx)
            for N in Ns:
                for idx in itertools.combinations_with_replacement(range(len(A)), N):
                    ctx.run('few %s p%d alphabet %s' % (cplx, p, idx), deficient, ctx, np.array([A[i] for i in idx]))
    elif what == 'grid':
        cplx, p, N, fam = u
        X = data.gauss(N, p, cplx, 0, fam)
        tag = '%s p%d N%d %s' % ('complex' if cplx else 'real', p, N, fam)
        for off in (0, 3.):
            ctx.run('%s +%g' % (tag, off), empirical, ctx, X + off*np.max(np.abs(X))*(1j if cplx else 1), True, X=X)
        for off in (1e2, 1e4, 1e6):
            if N > p + 1:
                ctx.run('%s mean %g' % (tag, off), far_mean, ctx, X, off, X=X)
        for kind in ('tyler', 'student', 'huber'):
            for par in est.PARS[kind][:2]:
                for kw in ([dict(normalisation=h) for h in ('None', 'trace')] if kind == 'tyler' else [{}]):
                    ctx.run('%s %s %s %s' % (tag, kind, par, kw), robust, ctx, X, kind, par, kw, X=X)
        if p < 4 and fam in ('gauss', 'corr'):
            ctx.run(tag + ' natural gradient', robust, ctx, X, 'tyler', None,
                    dict(method='natural gradient', normalisation='determinant'))
        if cplx and fam in ('gauss', 'corr', 'small'):
            ctx.run(tag + ' online', online, ctx, X)
    else:
        a, b, N = u
        for fam in ('gauss', 'corr', 'heavy'):
            X = data.gauss(N, a*b, True, 0, fam) + (0.5 - 1j)*(fam == 'corr')
            for model in ('mm', 'student', 'student-mean'):
                ctx.run('kron %dx%d %s %s' % (a, b, fam, model), kron, ctx, X, a, b, model, X=X)
