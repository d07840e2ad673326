"""C03: every estimator x normalisation x storage option x layout on the enumerated
data sets returns a finite Hermitian positive definite matrix of the right kind
and scale, with a consistent precision."""
import numpy as np

from mc import data, est, ref
from robuststats.estimation import base, covariance as cov, structured as struct

BOUNDS = {
    'quick': 'all multisets (real/complex, p=1: N<=3, p=2: N<=4, p=3: N=5) and a grid of sizes up to p=16 x 6 families, N=2100, p=64, p=34 at scales 1e-6 and 1e6; features in units up to 1e5 apart (p up to 20); Tyler, Student, Huber, '
             'empirical, Kronecker MM and Student, natural gradient (grid); 5 normalisations plus unknown names; precision stored or not; '
             'C/F/strided/reversed/read-only layouts, integer/list/real-for-complex input; stopping after 1, 3 and all iterations',
    'thorough': 'as quick with N one larger and natural gradient on every data set of the grid',
}
RULE = 'a case is (data set, estimator, parameters, normalisation, form)'
NORMS = ['None', 'trace', 'determinant', 'element']
GRID = [(1, 4), (2, 7), (3, 8), (4, 30), (6, 17), (9, 40), (16, 60)]


def plan(tier):
    th = tier == 'thorough'
    units = []
    for cplx in (False, True):
        for p, Ns in ((1, (1, 2, 3)), (2, (3, 4) + ((5,) if th else ())), (3, (5,) + ((6,) if th else ()))):
            for N in Ns:
                for lo, hi in data.chunks(len(data.multisets(p, cplx, N)), 80):
                    units.append(('alpha', cplx, p, N, lo, hi))
        for p, N in GRID:
            for fam in ('gauss', 'corr', 'heavy', 'scaled', 'small', 'big'):
                units.append(('grid', cplx, p, N, fam))
        for p, N in ((3, 2100), (64, 140)):
            units.append(('grid', cplx, p, N, 'gauss'))
        for fam in ('tiny', 'vast'):      # determinants outside the floating-point range
            units.append(('grid', cplx, 34, 80, fam))
        for p in (2, 3, 6, 20):
            units.append(('ill', cplx, p))
    for a, b, N in [(1, 2, 8), (2, 1, 8), (2, 2, 12), (2, 3, 20), (3, 2, 20), (3, 3, 30)]:
        for fam in ('gauss', 'corr', 'heavy'):
            units.append(('kron', a, b, N, fam))
    return units


def valid(ctx, S, p, cplx, what):
    S = np.asarray(S)
    ctx.ok(S.shape == (p, p), what + ': wrong shape', S.shape)
    ctx.ok(np.iscomplexobj(S) == cplx, what + ': wrong kind of element type', S.dtype)
    ctx.ok(np.all(np.isfinite(S)), what + ': not finite', S)
    ctx.close(S, S.conj().T, 1e-8, what + ': not Hermitian')
    w = np.linalg.eigvalsh((S + S.conj().T)/2)
    ctx.ok(w[0] > 0, what + ': not positive definite', w)
    ctx.see(S)


def precision(ctx, e, p):
    P = e.get_precision()
    I = np.eye(p)
    cond = np.linalg.cond(e.covariance_)
    ctx.near(P @ e.covariance_, I.astype(P.dtype), 1e-10*cond + 1e-9, 'get_precision() is not the inverse of covariance_')
    if e.precision_ is not None:
        ctx.near(e.precision_ @ e.covariance_, I, 1e-10*cond + 1e-9, 'precision_ is not the inverse of covariance_')


def scale_ok(ctx, S, how, S0, what):
    p = len(S)
    if how == 'trace':
        ctx.near(np.real(np.trace(S)), p, 1e-8*p, what + ': trace is not p')
    elif how == 'determinant':
        ctx.near(np.linalg.slogdet(S)[1], 0, 1e-7*p, what + ': determinant is not 1')
    elif how == 'element':
        ctx.near(S[0, 0], 1., 1e-8, what + ': first element is not 1')
    else:
        ctx.close(S, S0, 1e-9, what + ': scaled although not asked to')
        return
    ctx.close(S, ref.normalise(S0, how), 1e-8, what + ': not a multiple of the unnormalised estimate')


def fixed(ctx, X, full):
    """The six M-estimators and the empirical covariance on X."""
    p = X.shape[1]
    cplx = np.iscomplexobj(X)
    for kind in ('tyler', 'student', 'huber'):
        for par in (est.PARS[kind] if full else est.PARS[kind][:1]):
            for it in ((1, 3, 100) if full else (2, 60)):
                S0, _, _ = est.call(kind, par, X, iter_max=it, tol=1e-9)
                ctx.step()
                valid(ctx, S0, p, cplx, kind)
                if kind == 'tyler':
                    for how in NORMS:
                        S, _, _ = est.call(kind, par, X, iter_max=it, tol=1e-9, normalisation=how)
                        ctx.step()
                        valid(ctx, S, p, cplx, 'tyler ' + how)
                        scale_ok(ctx, S, how, S0, 'tyler ' + how)
                        e = est.make(kind, par, cplx, iter_max=it, tol=1e-9, normalisation=how).fit(X)
                        ctx.step()
                        valid(ctx, e.covariance_, p, cplx, 'tyler class ' + how)
                        scale_ok(ctx, e.covariance_, how, S0, 'tyler class ' + how)
                        precision(ctx, e, p)
                    for how in ('foo', 'TRACE', '', None):
                        S, _, _ = est.call(kind, par, X, iter_max=it, tol=1e-9, normalisation=how)
                        scale_ok(ctx, S, how, S0, 'tyler normalisation %r' % how)
                else:
                    e = est.make(kind, par, cplx, iter_max=it, tol=1e-9).fit(X)
                    ctx.step()
                    valid(ctx, e.covariance_, p, cplx, kind + ' class')
                    ctx.close(e.covariance_, S0, 1e-9, kind + ' class differs from the function')
                    precision(ctx, e, p)
    # start given
    init = data.spd(p, cplx, 'dense')
    for kind in ('tyler', 'student', 'huber'):
        e = est.make(kind, est.PARS[kind][0], cplx).fit(X, init=init)
        ctx.step()
        valid(ctx, e.covariance_, p, cplx, kind + ' with start')
        precision(ctx, e, p)
    for store in (True, False):
        for centred in (True, False):
            if centred is False and (len(X) <= p or data.rank(X - X.mean(0)) < p):
                continue
            cls = base.ComplexEmpiricalCovariance if cplx else base.RealEmpiricalCovariance
            e = cls(store_precision=store, assume_centered=centred).fit(X)
            ctx.step()
            valid(ctx, e.covariance_, p, cplx, 'empirical')
            ctx.ok((e.precision_ is not None) == store, 'store_precision is ignored')
            precision(ctx, e, p)
            if cplx:
                valid(ctx, base.complex_empirical_covariance(X, assume_centered=centred), p, cplx, 'empirical function')


def ill(ctx, X, d):
    """features of units far apart: the inverse is known from the data in common units"""
    p = X.shape[1]
    cplx = np.iscomplexobj(X)
    D = np.logspace(0, -d, p)
    Y = X*D
    inverse = lambda S: np.linalg.inv(S/D/D[:, None])/D/D[:, None]
    cls = base.ComplexEmpiricalCovariance if cplx else base.RealEmpiricalCovariance
    es = [est.make(k, est.PARS[k][0], cplx, iter_max=9) for k in ('tyler', 'student', 'huber')] + \
        [cls(store_precision=s, assume_centered=c) for s in (True, False) for c in (True, False)]
    for e in es:
        e.fit(Y)
        ctx.step()
        valid(ctx, e.covariance_, p, cplx, type(e).__name__)
        ref_ = inverse(e.covariance_)
        tol = 1e-13*p*10.**(2*d) + 1e-10
        ctx.close(e.get_precision(), ref_, tol, 'precision of an ill-conditioned estimate (%s)' % type(e).__name__)
        if e.precision_ is not None:
            ctx.close(e.precision_, ref_, tol, 'stored precision of an ill-conditioned estimate (%s)' % type(e).__name__)
        m = np.real(np.einsum('ij,jk,ik->i', (Y - e.location_).conj(), ref_, Y - e.location_))
        ctx.close(e.mahalanobis(Y), m, tol, 'distances under an ill-conditioned estimate (%s)' % type(e).__name__)
    ctx.trace()


def forms(ctx, X):
    """Same estimate whatever the memory layout / container of the same data."""
    p = X.shape[1]
    cplx = np.iscomplexobj(X)
    for kind in ('tyler', 'student', 'huber'):
        par = est.PARS[kind][0]
        S0 = est.call(kind, par, X)[0]
        ctx.step()
        for lay, Y in data.layouts(X):
            ctx.close(est.call(kind, par, Y)[0], S0, 1e-8, '%s, %s layout' % (kind, lay))
            ctx.step()
        for mk in (lambda: X.tolist(), lambda: np.asfortranarray(X)):
            e = est.make(kind, par, cplx, iter_max=30).fit(mk())
            ctx.step()
            valid(ctx, e.covariance_, p, cplx, kind)
            ctx.close(e.covariance_, S0, 1e-8, '%s from a list/F-ordered array' % kind)


def real_as_complex(ctx, X):
    """A complex estimator reads real data as complex."""
    p = X.shape[1]
    for kind in ('tyler', 'student', 'huber'):
        par = est.PARS[kind][0]
        a = est.make(kind, par, True).fit(X)
        b = est.make(kind, par, True).fit(X.astype(complex))
        ctx.step(2)
        valid(ctx, a.covariance_, p, True, kind)
        ctx.close(a.covariance_, b.covariance_, 1e-12, 'complex %s of real data' % kind)
        precision(ctx, a, p)
    a = base.ComplexEmpiricalCovariance().fit(X)
    valid(ctx, a.covariance_, p, True, 'complex empirical covariance of real data')
    S = (X - X.mean(0)).T @ (X - X.mean(0))/len(X)
    ctx.close(a.covariance_, S.astype(complex), 1e-10, 'complex empirical covariance of real data')


def gradient(ctx, X, how):
    p = X.shape[1]
    cplx = np.iscomplexobj(X)
    f = cov.complex_tyler_shape_matrix_naturalgradient if cplx else cov.tyler_shape_matrix_naturalgradient
    init = data.spd(p, cplx, 'dense')
    S0 = f(X, init=init)[0]
    valid(ctx, S0, p, cplx, 'natural gradient')
    S = f(X, init=init, normalisation=how)[0]
    ctx.step(2)
    valid(ctx, S, p, cplx, 'natural gradient ' + how)
    if how in NORMS[1:]:
        scale_ok(ctx, S, how, S0, 'natural gradient ' + how)
    e = est.make('tyler', None, cplx, method='natural gradient', normalisation=how).fit(X, init=init)
    valid(ctx, e.covariance_, p, cplx, 'natural gradient class')
    ctx.close(e.covariance_, S, 1e-9, 'natural gradient class')
    precision(ctx, e, p)


def kron(ctx, X, a, b, model, store):
    p = a*b
    if model == 'mm':
        e = struct.KroneckerEllipticalMM(a, b, store_precision=store)
    else:
        e = struct.KroneckerStudent(a, b, 3, store_precision=store, assume_centered=model == 'student')
    e.fit(X)
    ctx.step()
    valid(ctx, e.covariance_, p, True, model)
    valid(ctx, e.A_, a, True, model + ' A')
    valid(ctx, e.B_, b, True, model + ' B')
    ctx.ok((e.precision_ is not None) == store, 'store_precision is ignored')
    precision(ctx, e, p)


def run_unit(ctx, what, *u):
    if what == 'alpha':
        cplx, p, N, lo, hi = u
        for name, X in data.multisets(p, cplx, N)[lo:hi]:
            ctx.run('%s p%d N%d #%s' % ('complex' if cplx else 'real', p, N, name), fixed, ctx, X, ctx.thorough, X=X)
    elif what == 'ill':
        cplx, p = u
        for fam in ('gauss', 'heavy'):
            X = data.gauss(3*p + 3, p, cplx, 2, fam)
            for d in range(6):
                ctx.run('%s p%d %s units over 1e%d' % ('complex' if cplx else 'real', p, fam, d), ill, ctx, X, d)
    elif what == 'grid':
        cplx, p, N, fam = u
        X = data.gauss(N, p, cplx, 0, fam)
        tag = '%s p%d N%d %s' % ('complex' if cplx else 'real', p, N, fam)
        ctx.run(tag, fixed, ctx, X, True, X=X)
        ctx.run(tag + ' forms', forms, ctx, X)
        if not cplx:
            ctx.run(tag + ' complex estimator', real_as_complex, ctx, X)
            Z = np.round(X/np.max(np.abs(X))*9*p)
            if data.rank(Z) == p and np.all(np.any(Z, axis=1)):
                ctx.run(tag + ' integer valued', fixed, ctx, Z.astype(int), False)
        if p <= (6 if ctx.thorough else 3) and p > 1 or p == 1:
            for how in (NORMS + ['foo'] if ctx.thorough or fam in ('gauss', 'corr') else ['determinant']):
                ctx.run(tag + ' gradient ' + how, gradient, ctx, X, how)
    else:
        a, b, N, fam = u
        X = data.gauss(N, a*b, True, 0, fam)
        for model in ('mm', 'student', 'student-mean'):
            for store in (True, False):
                ctx.run('kron %dx%d N%d %s %s store=%s' % (a, b, N, fam, model, store),
                        kron, ctx, X, a, b, model, store, X=X)
