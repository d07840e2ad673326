"""C01: converged fixed points satisfy S = mean u(x^H S^-1 x) x x^H."""
import numpy as np

from mc import data, est, ref

BOUNDS = {
    'quick': 'all multisets of observations of the alphabets (p=1: N<=4, p=2: N<=5, p=3: N=5; real and complex) on which '
             'Tyler exists x {Tyler, Student, Huber} at default parameters x 2 starts; all parameters x starts x layouts x dtypes on a grid of sizes up to N=301, p=17 (defaults: N=2500, p=60), units from 1e-6 to 1e6',
    'thorough': 'as quick with N<=5 (p=1), N<=6 (p=2), N<=6 (p=3) and every parameter and start on every multiset',
}
RULE = 'a case is (data set, estimator, parameter, start, form); outcomes are distinct rounded estimates'
STARTS = [None, 'eye', 'diag', 'dense', 'small']
FAR = ['tiny', 'huge', 'wide']
MORE = {'tyler': [], 'student': [0.1, 2, 30, 1e3, 1e5, 1e8], 'huber': [0.999, 0.99999, 0.05, 0.01, 0.7]}


def plan(tier):
    th = tier == 'thorough'
    units = []
    for cplx in (False, True):
        for p, Ns in ((1, (1, 2, 3, 4) + ((5,) if th else ())),
                      (2, (3, 4, 5) + ((6,) if th else ())),
                      (3, (4, 5) + ((6,) if th else ()))):
            for N in Ns:
                n = len(data.multisets(p, cplx, N))
                for lo, hi in data.chunks(n, 60 if not th else 40):
                    units.append(('alpha', cplx, p, N, lo, hi))
    for cplx in (False, True):
        for p, N in ((1, 7), (2, 9), (3, 16), (4, 30), (5, 23), (8, 60), (12, 50), (17, 120), (3, 301)):
            for kind in ('gauss', 'corr', 'heavy', 'scaled', 'small', 'big', 'tiny', 'vast', 'outliers', 'far', 'near', 'same'):
                units.append(('grid', cplx, p, N, kind))
        for p, N in ((3, 2500), (2, 1025), (60, 150), (33, 70)):
            for kind in ('gauss', 'heavy'):
                units.append(('large', cplx, p, N, kind))
    return units


def check_one(ctx, X, kind, par, start, S_ref, tol=1e-12, iter_max=6000):
    p = X.shape[1]
    kw = {}
    if start is not None:
        kw['init'] = data.spd(p, np.iscomplexobj(X), start) if isinstance(start, str) else start
    S, err, it = est.call(kind, par, X, tol=tol, iter_max=iter_max, **kw)
    ctx.step(int(it) if it else 1)
    ctx.ok(np.all(np.isfinite(S)), 'estimate is not finite', S)
    res = ref.step(kind, par, S, np.asarray(X, dtype=S.dtype))
    ctx.close(S, res, 1e-8, 'estimate does not solve its equation')
    ctx.close(S, S.conj().T, 1e-9, 'estimate is not Hermitian')
    if S_ref is not None:
        if kind == 'tyler':
            ctx.close(ref.trace_norm(S), ref.trace_norm(S_ref), 1e-5, 'estimate depends on the start (up to scale)')
        else:
            ctx.close(S, S_ref, 1e-5, 'estimate depends on the start')
    ctx.see(S)
    ctx.trace()
    return S


def reference(kind, par, X):
    S = ref.solve(kind, par, X, tol=3e-13, itmax=4000)
    return S


def run_unit(ctx, what, cplx, p, N, *rest):
    if what == 'alpha':
        lo, hi = rest
        for name, X in data.multisets(p, cplx, N)[lo:hi]:
            for kind in ('tyler', 'student', 'huber'):
                pars = est.PARS[kind] if ctx.thorough else est.PARS[kind][:2]
                for par in pars:
                    S_ref = reference(kind, par, X)
                    if S_ref is None:        # too slow to converge within the bound
                        ctx.notes['too_slow'] = ctx.notes.get('too_slow', 0) + 1
                        continue
                    starts = STARTS if ctx.thorough else \
                        ([None, 'dense'] if par == pars[0] else [None])
                    for start in starts:
                        ctx.run('%s/%s p%d N%d #%s %s start=%s' % (
                            'complex' if cplx else 'real', kind, p, N, name, par, start),
                            check_one, ctx, X, kind, par, start, S_ref, X=X)
    elif what == 'large':
        fam, = rest
        X = data.gauss(N, p, cplx, 0, fam)
        for kind in ('tyler', 'student', 'huber'):
            for par in est.PARS[kind][:2]:
                S_ref = reference(kind, par, X)
                if S_ref is None:
                    ctx.notes['too_slow'] = ctx.notes.get('too_slow', 0) + 1
                    continue
                tag = '%s p%d N%d %s %s %s' % ('complex' if cplx else 'real', p, N, fam, kind, par)
                ctx.run(tag, check_one, ctx, X, kind, par, None, S_ref)
                ctx.run(tag + ' class', check_class, ctx, X, kind, par, S_ref)
    else:
        fam, = rest
        X = data.gauss(N, p, cplx, 0, fam)
        tag = '%s p%d N%d %s' % ('complex' if cplx else 'real', p, N, fam)
        for kind in ('tyler', 'student', 'huber'):
            for par in est.PARS[kind]:
                S_ref = reference(kind, par, X)
                if S_ref is None:
                    ctx.notes['too_slow'] = ctx.notes.get('too_slow', 0) + 1
                    continue
                for start in (STARTS if par == est.PARS[kind][0] or ctx.thorough else [None, 'dense']):
                    ctx.run('%s %s %s start=%s' % (tag, kind, par, start),
                            check_one, ctx, X, kind, par, start, S_ref)
                ctx.run('%s %s %s class' % (tag, kind, par), check_class, ctx, X, kind, par, S_ref)
            if p <= 4 and fam in ('gauss', 'outliers', 'far') or ctx.thorough:
                for par in MORE[kind]:
                    S_ref = reference(kind, par, X)
                    if S_ref is None:
                        ctx.notes['too_slow'] = ctx.notes.get('too_slow', 0) + 1
                        continue
                    ctx.run('%s %s %s' % (tag, kind, par), check_one, ctx, X, kind, par, None, S_ref)
                    ctx.run('%s %s %s class' % (tag, kind, par), check_class, ctx, X, kind, par, S_ref)
            par = est.PARS[kind][0]
            S_ref = reference(kind, par, X)
            if S_ref is None:
                continue
            for start in FAR if p <= 4 or ctx.thorough else ():
                ctx.run('%s %s start=%s' % (tag, kind, start), check_one, ctx, X, kind, par, start, S_ref)
            init = np.eye(p, dtype=int) + 1
            ctx.run('%s %s integer start' % (tag, kind), check_one, ctx, X, kind, par, init, S_ref)
            ctx.run('%s %s F start' % (tag, kind), check_one, ctx, X, kind, par,
                    np.asfortranarray(data.spd(p, cplx, 'dense')), S_ref)
            if kind != 'tyler':       # observations at the centre
                Y = np.concatenate([X[:3], 0*X[:1], X[3:], 0*X[:1]])
                S_ref0 = reference(kind, par, Y)
                if S_ref0 is not None:
                    ctx.run('%s %s zero rows' % (tag, kind), check_one, ctx, Y, kind, par, None, S_ref0)
            for lay, Y in data.layouts(X):
                ctx.run('%s %s layout %s' % (tag, kind, lay), check_one, ctx, Y, kind, par, None, S_ref)
            # integer-valued data, integer and single precision element types
            Z = np.round(4*X/np.max(np.abs(X))*max(1, p/2))
            if data.rank(Z) == p and np.all(np.any(Z != 0, axis=1)) and p > 1 and N >= 3*p:
                S_ref = reference(kind, par, Z)
                if S_ref is not None and not cplx:
                    ctx.run('%s %s int' % (tag, kind), check_one, ctx, Z.astype(int), kind, par, None, S_ref)


def check_class(ctx, X, kind, par, S_ref):
    cplx = np.iscomplexobj(X)
    p = X.shape[1]
    a = est.make(kind, par, cplx, tol=1e-12, iter_max=6000).fit(X)
    ctx.step()
    S, err, it = est.call(kind, par, X, tol=1e-12, iter_max=6000)
    ctx.close(a.covariance_, S, 1e-9, 'class and functional forms differ')
    ctx.close(a.covariance_, ref.step(kind, par, a.covariance_, X), 1e-8, 'class estimate does not solve its equation')
    if kind == 'tyler':
        ctx.close(ref.trace_norm(a.covariance_), ref.trace_norm(S_ref), 1e-5, 'class estimate')
    else:
        ctx.close(a.covariance_, S_ref, 1e-5, 'class estimate')
    init = data.spd(p, cplx, 'dense')
    b = est.make(kind, par, cplx, tol=1e-12, iter_max=6000).fit(X, init=init)
    S2, _, it2 = est.call(kind, par, X, tol=1e-12, iter_max=6000, init=init)
    ctx.close(b.covariance_, S2, 1e-9, 'class and functional forms differ with a given start')
    c = est.make(kind, par, cplx, tol=1e-12, iter_max=6000)
    f = c.fit_transform(X)
    ctx.close(f, c.covariance_, 0, 'fit_transform is the covariance')
    ctx.close(c.covariance_, a.covariance_, 1e-12, 'fit_transform and fit agree')
