"""C07: scores are compared with the t log-density of the reference; every iterate of
the real estimator is scored (monotone ladder iter_max=0..K) and the converged fit is
compared with every matrix of a ladder of perturbations along a full basis of the
Hermitian matrices."""
import numpy as np

from mc import data, est, ref

BOUNDS = {
    'quick': 'p=1..5 (real/complex) x 4 families x df in {0.5, 1, 3, 10, 100} (0.1 to 1e5 and outliers for p=2, 3) x starts; iterates 0..15; perturbations along every basis matrix, '
             '2 signs, 4 lengths; rescalings; test sets of 1..N rows, up to 1e30 times the training data and with zero rows; (p, N) = (9, 90), (2, 301), (3, 2100), (30, 90)',
    'thorough': 'as quick with 6 families, p<=9, iterates 0..60, perturbations along sums and differences of basis pairs',
}
RULE = 'a case is (data set, df, start) with all its iterates and perturbations'
SIZES = [(1, 3), (1, 8), (2, 5), (2, 9), (3, 10), (4, 25), (5, 20), (9, 90), (2, 301), (3, 2100), (30, 90)]


def plan(tier):
    units = []
    for cplx in (False, True):
        for p, N in SIZES + ([(7, 40)] if tier == 'thorough' else []):
            for fam in ('gauss', 'corr', 'heavy', 'scaled') + (('small', 'big') if tier == 'thorough' else ()):
                for df in est.PARS['student']:
                    units.append((cplx, p, N, fam, df))
                if p in (2, 3) and N < 20:
                    for df in (0.1, 1e3, 1e5):
                        units.append((cplx, p, N, fam, df))
            if p in (2, 3) and N < 20:
                for fam in ('outliers', 'far'):
                    for df in (0.5, 3, 1e3, 1e5):
                        units.append((cplx, p, N, fam, df))
    return units


def put(e, S):
    """make S the covariance of the fitted estimator e"""
    if hasattr(e, '_set_covariance'):
        e._set_covariance(S)
    else:
        e.covariance_ = S


def total(X, S, df):
    return np.sum(ref.t_logpdf(X, np.zeros(len(S)), S, df))


def formula(ctx, X, df, init, it):
    cplx = np.iscomplexobj(X)
    p = X.shape[1]
    e = est.make('student', df, cplx, iter_max=it, tol=1e-14)
    e.fit(X, init=init) if init is not None else e.fit(X)
    for Y in (X, data.gauss(1, p, cplx, 5), data.gauss(7, p, cplx, 6, 'heavy'), X[:2], 100*X,
              np.vstack([X, 1e9*X[:2]]), 1e30*X, np.vstack([X[:1], 0*X[:1]])):
        got = e.score(Y)
        ctx.step()
        want = total(Y, e.covariance_, df)
        ctx.near(got, want, 1e-8*(1 + abs(want) + len(Y)*p), 'score is not the log-likelihood of the test data')
        ctx.see(got)
    for lay, Y in data.layouts(X):
        ctx.near(e.score(Y), total(X, e.covariance_, df), 1e-8*(1 + abs(total(X, e.covariance_, df)) + len(X)*p), 'score, layout ' + lay)
    # additive over the rows of the test set
    ctx.near(e.score(X), sum(e.score(x[None]) for x in X), 1e-7*(1 + abs(want)), 'score is the total over the test data')


def ladder(ctx, X, df, init, K):
    cplx = np.iscomplexobj(X)
    last = None
    for it in list(range(1, K + 1)):
        e = est.make('student', df, cplx, iter_max=it, tol=1e-14)
        e.fit(X, init=init) if init is not None else e.fit(X)
        s = e.score(X)
        ctx.step()
        ctx.ok(np.isfinite(s), 'score is not finite', s)
        if last is None:
            s0 = total(X, ref.scm(X) if init is None else init, df)
            ctx.ok(s >= s0 - 1e-8*(1 + abs(s0)), 'first iteration decreases the likelihood', s0, s)
        else:
            ctx.ok(s >= last - 1e-8*(1 + abs(s)), 'iteration %d decreases the likelihood' % it, last, s)
        last = s
    ctx.trace()


def best(ctx, X, df, init):
    cplx = np.iscomplexobj(X)
    p = X.shape[1]
    e = est.make('student', df, cplx, iter_max=20000, tol=1e-12)
    e.fit(X, init=init) if init is not None else e.fit(X)
    ctx.step()
    top = e.score(X)
    S = e.covariance_.copy()
    R = ref.funm(S, np.sqrt)
    E = data.hermitian_basis(p, cplx)
    dirs = list(E) + [np.eye(p, dtype=S.dtype)]
    if ctx.thorough:
        dirs += [A + s*B for i, A in enumerate(E) for B in E[:i] for s in (1, -1)]
    elif p > 5:
        dirs = dirs[::3] + dirs[-1:]
    for i, H in enumerate(dirs):
        for sgn in (1, -1):
            for t in (0.01, 0.1, 1., 3.):
                Q = R @ ref.funm(sgn*t*H/np.linalg.norm(H), np.exp) @ R
                Q = (Q + Q.conj().T)/2
                put(e, Q)
                s = e.score(X)
                ctx.step()
                ctx.ok(s <= top + 1e-7*(1 + abs(top)), 'another matrix is more likely (direction %d, %g)' % (i, sgn*t), top, s, Q)
                if t == 0.1:
                    ctx.ok(s < top, 'fit is not the unique maximum (direction %d)' % i, top, s)
                ctx.see(s)
    # the derivative of the score vanishes in every direction
    for i, H in enumerate(dirs[:len(E)]):
        h = 1e-4
        v = []
        for t in (h, -h):
            Q = R @ ref.funm(t*H, np.exp) @ R
            put(e, (Q + Q.conj().T)/2)
            v.append(e.score(X))
        g = (v[0] - v[1])/(2*h)
        ctx.ok(abs(g) <= 2e-5*len(X)*p + 1e-7*abs(top), 'likelihood is not stationary at the fit (direction %d)' % i, g)
    ctx.trace()


def run_unit(ctx, cplx, p, N, fam, df):
    X = data.gauss(N, p, cplx, 0, fam)
    tag = '%s p%d N%d %s df=%g' % ('complex' if cplx else 'real', p, N, fam, df)
    slow = ref.solve('student', df, X, tol=1e-12, itmax=15000) is None
    for start in (None, 'dense', 'small') if ctx.thorough else (None, 'dense'):
        init = None if start is None else data.spd(p, cplx, start)
        for it in (1, 4, 200):
            ctx.run('%s start=%s formula after %d' % (tag, start, it), formula, ctx, X, df, init, it, X=X)
        ctx.run('%s start=%s iterates' % (tag, start), ladder, ctx, X, df, init, 60 if ctx.thorough else 15, X=X)
        if slow:
            ctx.notes['too_slow'] = ctx.notes.get('too_slow', 0) + 1
        elif start is None or ctx.thorough:
            ctx.run('%s start=%s maximum' % (tag, start), best, ctx, X, df, init, X=X)
