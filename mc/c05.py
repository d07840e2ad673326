"""C05: every admissible subset of observations is multiplied by every factor of a
ladder up to 1e8; Tyler must not move, Student-t and Huber must approach the limit
computed from the limiting equation in which the corrupted observations have
Tyler's weight.  The limits of Huber's q are walked by a ladder of values."""
import itertools

import numpy as np

from mc import data, est, ref
from scipy.stats import chi2

BOUNDS = {
    'quick': 'data sets p=1..4, N<=14 (real/complex, 2 families); all subsets of up to 2 corrupted observations (Tyler: up to N) that are admissible '
             'x factors 10, 1e3, 1e5 (1e8 from the identity; two of these for several observations) x {Tyler, Student, Huber}; (p, N) = (8, 60), (2, 200), (2, 1100) with single and prefix subsets; q ladder to 0 and 1',
    'thorough': 'as quick with subsets of up to 3, 4 families, all parameters and 3 more sizes',
}
RULE = 'a case is (data set, corrupted subset, factor, estimator)'
SIZES = [(1, 6), (2, 8), (3, 11), (4, 14)]


def plan(tier):
    th = tier == 'thorough'
    units = []
    for cplx in (False, True):
        for p, N in SIZES + ([(2, 12), (3, 16), (5, 22)] if th else []):
            for fam in ('gauss', 'corr') + (('heavy', 'scaled') if th else ()):
                for kind in ('tyler', 'student', 'huber'):
                    units.append(('sub', cplx, p, N, fam, kind))
                units.append(('q', cplx, p, N, fam))
        units.append(('q', cplx, 8, 60, 'gauss'))
        for kind in ('tyler', 'student', 'huber'):
            units.append(('sub', cplx, 8, 60, 'gauss', kind))
            if kind != 'tyler':
                units.append(('sub', cplx, 2, 200, 'gauss', kind))
                units.append(('sub', cplx, 2, 1100, 'gauss', kind))
    return units


def gain(kind, par, p, cplx):
    """sup of t*u(t)"""
    if kind == 'student':
        return par/2 + p if cplx else par + p
    a = chi2.ppf(par, 2*p)/2 if cplx else chi2.ppf(par, p)
    b = (chi2.cdf(2*a, 2*p + 2) if cplx else chi2.cdf(a, p + 2)) + a*(1 - par)/p
    return a/b


def limit(kind, par, X, out, cplx, itmax=4000):
    """solution when the observations in out are infinitely large"""
    N, p = X.shape
    u = ref.weight(kind, par, p, cplx)
    K = gain(kind, par, p, cplx)
    S = np.eye(p, dtype=X.dtype)
    mask = np.zeros(N, bool)
    mask[list(out)] = True
    for _ in range(itmax):
        t = ref.quad(S, X)
        w = np.where(mask, K/t, u(t))
        T = (X.T*w) @ X.conj()/N
        d = np.linalg.norm(T - S)/np.linalg.norm(S)
        S = T
        if d < 1e-13:
            return S
    return None


def corrupt(X, sub, f, cplx):
    Y = X.copy()
    for j, i in enumerate(sub):
        Y[i] = Y[i]*f*(np.exp(1j*(1 + j)) if cplx else (-1)**j)
    return Y


def tyler_case(ctx, X, sub, f, start, S0, form):
    p = X.shape[1]
    cplx = np.iscomplexobj(X)
    Y = corrupt(X, sub, f, cplx)
    kw = {} if start is None else dict(init=np.eye(p, dtype=X.dtype))
    if form == 'class':
        S = est.make('tyler', None, cplx, tol=1e-12, iter_max=5000, normalisation='trace').fit(Y, **kw).covariance_
        ctx.close(S, ref.trace_norm(S0), 1e-6, 'Tyler class estimate moved')
    else:
        S = est.call('tyler', None, Y, tol=1e-12, iter_max=5000, **kw)[0]
        ctx.close(ref.trace_norm(S), ref.trace_norm(S0), 1e-6, 'Tyler estimate moved')
    ctx.step()
    ctx.trace()
    ctx.see(S)


def m_case(ctx, X, kind, par, sub, f, start, L, form):
    p = X.shape[1]
    cplx = np.iscomplexobj(X)
    Y = corrupt(X, sub, f, cplx)
    kw = {} if start is None else dict(init=np.eye(p, dtype=X.dtype))
    if form == 'class':
        S = est.make(kind, par, cplx, tol=1e-12, iter_max=5000).fit(Y, **kw).covariance_
    else:
        S = est.call(kind, par, Y, tol=1e-12, iter_max=5000, **kw)[0]
    ctx.step()
    ctx.ok(np.all(np.isfinite(S)), 'not finite', S)
    w = np.linalg.eigvalsh((S + S.conj().T)/2)
    ctx.ok(w[0] > 0, 'not positive definite', w)
    W = ref.funm(L, lambda w: w**-0.5)
    dev = np.linalg.norm(W @ S @ W - np.eye(p), 2)
    lim = 2e-6 + 1e4*(1 + 1e-2*p)/f**2 if f >= 1e3 else np.inf
    if f < 1e3:
        ctx.ok(dev < 50, 'estimate far from its limit', S, L)
        return
    ctx.ok(dev <= lim, 'estimate with factor %g differs from the limit by %.3g' % (f, dev), S, L)
    ctx.trace()
    ctx.see(S)


def q_case(ctx, X, ladder, target):
    cplx = np.iscomplexobj(X)
    N, p = X.shape
    Ty = ref.solve('tyler', None, X, tol=1e-13, itmax=4000) if target == 'tyler' else None
    if target == 'tyler' and Ty is None:
        return
    last = None
    for q in ladder:
        S = est.call('huber', q, X, tol=1e-11, iter_max=8000)[0]
        C = est.make('huber', q, cplx, tol=1e-11, iter_max=8000).fit(X).covariance_
        ctx.step(2)
        ctx.close(C, S, 1e-9, 'class and function differ for q=%g' % q)
        if target == 'scm':
            e = np.linalg.norm(S - ref.scm(X))/np.linalg.norm(ref.scm(X))
            bound = 1e3*p*(1 - q) + 1e-9
            if chi2.ppf(q, 2*p if cplx else p) / (2 if cplx else 1) <= 1.01*ref.quad(ref.scm(X), X).max():
                continue         # some observation still is beyond the threshold
        else:
            e = np.linalg.norm(ref.trace_norm(S) - ref.trace_norm(Ty))/np.linalg.norm(ref.trace_norm(Ty))
            bound = 20*N*q + 1e-6
        ctx.ok(e <= bound, 'Huber with q=%g differs from the %s by %.3g' % (q, target, e), S)
        ctx.see(S)
    ctx.trace()


def run_unit(ctx, what, cplx, p, N, fam, *rest):
    X = data.gauss(N, p, cplx, 0, fam)
    tag = '%s p%d N%d %s' % ('complex' if cplx else 'real', p, N, fam)
    if what == 'q':
        ctx.run(tag + ' q to 1', q_case, ctx, X, [1 - 10.**-k for k in range(2, 13)] + [1., 1], 'scm', X=X)
        ctx.run(tag + ' q to 0', q_case, ctx, X, [10.**-k for k in range(2, 6)], 'tyler', X=X)
        return
    kind, = rest
    big = N > 50
    if kind == 'tyler':
        S0 = ref.solve(kind, None, X, tol=3e-13, itmax=3000)
        if S0 is None:
            return
        tops = range(1, N + 1) if not big else (1, 10, 29, 60)
        for m in tops:
            subs = itertools.combinations(range(N), m) if not big and (m <= 2 or ctx.thorough and m <= 3) else \
                [tuple(range(m)), tuple(range(N - m, N)), tuple(range(0, N, 2))[:m]]
            for j, sub in enumerate(sorted(set(subs))):
                for f, start in ((10., None), (1e3, None), (1e5, None), (1e8, 'eye'), (1e-4, None)):
                    if f == 1e-4 and m > 2 or not ctx.thorough and m > 1 and f not in (1e3, 1e8):
                        continue
                    ctx.run('%s tyler %s x%g %s' % (tag, sub, f, start), tyler_case, ctx, X, sub, f, start, S0,
                            'class' if (j + int(np.log10(f))) % 3 == 0 else 'function', X=X)
        return
    pars = est.PARS[kind] if ctx.thorough else est.PARS[kind][:2]
    if N >= 200:
        pars = [20., 60.] if kind == 'student' else [0.999, 0.99999, 0.05]
    for par in pars:
        K = gain(kind, par, p, cplx)
        for m in (1, 2, 3) if ctx.thorough or big else (1, 2):
            # clearly below the breakdown point of every subspace
            if K/N > 0.8 or m*K/N > 0.8*min(m, p):
                continue
            if big:
                subs = [tuple(range(i, i + m)) for i in range(0, N - m, 6 if N < 200 else 40)]
            else:
                subs = itertools.combinations(range(N), m)
            for j, sub in enumerate(subs):
                L = limit(kind, par, X, sub, cplx, 1500)
                if L is None:
                    ctx.notes['too_slow'] = ctx.notes.get('too_slow', 0) + 1
                    continue
                for f, start in ((10., None), (1e3, None), (1e5, None), (1e8, 'eye')):
                    if not ctx.thorough and m > 1 and f in (10., 1e3):
                        continue
                    ctx.run('%s %s %s %s x%g %s' % (tag, kind, par, sub, f, start), m_case, ctx, X, kind, par, sub, f, start, L,
                            'class' if (j + int(np.log10(f))) % 3 == 0 else 'function', X=X)
