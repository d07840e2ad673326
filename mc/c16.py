"""C16: as C15 for the t model: every combination of parameter kinds, degrees of freedom
and data forms against the closed form; total mass by exhaustive radial quadrature over a
lattice of directions; sample laws read off exactly given every mixing variable."""
import numpy as np
from scipy import integrate, special

from mc import core, data, laws, ref
from mc.c15 import covs, forms, full, legal, means, reading
from robuststats.models.probability import complex_multivariate_t as CT

BOUNDS = {
    'quick': 'p=1..4, 7, 15, 33 x df 0.5, 1, 2.1, 5, 50, 1e6 (inf) x 8 kinds of location x 10 kinds of shape x 10 forms of data, frozen and not; '
             'total mass for p=1 (plane) and by radial law for p=2, 3; rvs: all basis noise vectors for several chi-square values, sizes 1..4',
    'thorough': 'p up to 40',
}
RULE = 'a state is (location kind, shape kind, df, form)'
DFS = (0.5, 1, 2.1, 5, 50, 1e6)


def kwargs(m, C, df):
    kw = {'df': df}
    if m is not None:
        kw['loc'] = m
    if C is not None:
        kw['shape'] = C
    return kw


def density(ctx, p, m, C, df, x):
    cplx, M, K = full(p, m, C)
    y = reading(x, cplx, p)
    want = ref.t_logpdf(y, M, K, df) if df < 1e15 else ref.normal_logpdf(y, M, K)
    kw = kwargs(m, C, df)
    tol = 1e-8 if df < 1e5 else 1e-6
    for who, d, k in (('', CT, kw), ('frozen ', CT(**kw), {})):
        a = d.logpdf(x, **k)
        ctx.ok(np.isrealobj(a), who + 'logpdf is complex')
        ctx.close(np.ravel(a), want, tol, who + 'logpdf')
        b = d.pdf(x, **k)
        ctx.ok(np.isrealobj(b), who + 'pdf is complex')
        ctx.close(np.ravel(b), np.exp(want), 10*tol, who + 'pdf')
        ctx.ok(np.size(a) == len(y), 'number of values')
    if m is not None and C is not None:
        ctx.close(np.ravel(CT.logpdf(x, m, C, df)), want, tol, 'positional arguments')
        ctx.close(np.ravel(CT.pdf(x, m, C, df)), np.exp(want), 10*tol, 'positional arguments')
    if df == 1:
        kw.pop('df')
        ctx.close(np.ravel(CT.logpdf(x, **kw)), want, tol, 'default degrees of freedom')
        ctx.close(np.ravel(CT(**kw).logpdf(x)), want, tol, 'default degrees of freedom, frozen')
    ctx.step(4)
    ctx.see(np.asarray(want)[:2])


def mass(ctx, p, m, C, df):
    """the density depends on the quadratic form only: integrate it over the radius"""
    cplx, M, K = full(p, m, C)
    n = 2*p if cplx else p
    L = np.linalg.cholesky(K)
    ld = ref.logdet(K)*(2 if cplx else 1)/2.
    area = 2*np.pi**(n/2)/special.gamma(n/2)
    kw = kwargs(m, C, df)
    total = []
    dirs = np.vstack([np.eye(p), np.ones((1, p))/np.sqrt(p)]).astype(complex if cplx else float)
    if cplx:
        dirs = np.vstack([dirs, 1j*dirs, (1 + 1j)/np.sqrt(2)*dirs])
    for v in np.vstack([dirs, -dirs]):
        # x = M + r L v; volume element |det L| area r^(n-1) dr ; t = r/(1+r)
        def f(t):
            r = t/(1 - t)
            lp = CT.logpdf((M + r*(L @ v))[None] if p > 1 or cplx else M + r*(L @ v), **kw)
            return float(np.ravel(np.exp(lp))[0])*r**(n - 1)/(1 - t)**2
        total.append(area*np.exp(ld)*integrate.quad(f, 0, 1, limit=80, epsrel=1e-7)[0])
    ctx.step(len(total)*100)
    ctx.near(np.array(total), np.ones(len(total)), 1e-3, 'total mass along every direction')


def samples(ctx, p, m, C, df, n):
    cplx, M, K = full(p, m, C)
    kw = kwargs(m, C, df)
    frozen = CT(**kw)
    for who, f in (('', lambda r: CT.rvs(size=n, random_state=r, **kw)), ('frozen ', lambda r: frozen.rvs(size=n, random_state=r))):
        out = f(np.random.RandomState(3))
        ctx.ok(np.size(out) == n*p and np.iscomplexobj(out) == cplx, who + 'sample', np.shape(out))
        for chi in ((1.,), (0.3, 4., 2.5, 7.)):
            c = np.array([chi[i % len(chi)] for i in range(n)])
            dfs = laws.gaussian_law(ctx, f, n, p, M, K, cplx, chi, df/c)
            ctx.ok(all(d == df for d in dfs) and dfs, 'degrees of freedom of the mixing variable', dfs)
    a = CT.rvs(size=n, random_state=5, **kw)
    ctx.same(a, frozen.rvs(size=n, random_state=5), 'frozen and unfrozen samples of one seed')
    ctx.same(a, CT.rvs(size=n, random_state=5, **kw), 'samples of one seed')
    ctx.same(a, CT.rvs(size=n, random_state=np.random.RandomState(5), **kw), 'seed and random state')
    ctx.same(a, CT(seed=5, **kw).rvs(size=n), 'seed of the frozen model')
    z = CT(seed=5, **kw)
    z.rvs(size=n)
    ctx.ok(not core.same(z.rvs(size=n), a), 'a frozen model repeats its first sample')
    np.random.seed(5)
    ctx.same(a, CT.rvs(size=n, **kw), 'sample of the global random state')
    ctx.see(a)


def plan(tier):
    th = tier == 'thorough'
    ps = (1, 2, 3, 4, 7, 15, 33) + ((25, 40) if th else ())
    units = [('density', p, i) for p in ps for i in range(8)]
    units += [('mass', p, i) for p in (1, 2, 3) for i in (0, 2, 3)]
    units += [('samples', p, i) for p in (1, 2, 3, 5) for i in range(8)]
    return units


def run_unit(ctx, what, p, i):
    mn, m = means(p)[i]
    for cn, C in covs(p):
        if not legal(p, mn, cn):
            continue
        tag = '%s p=%d loc %s shape %s' % (what, p, mn, cn)
        if what == 'density':
            for df in DFS:
                for xn, x in forms(p):
                    if p == 1 and np.ndim(x) == 1 and len(x) > 1:
                        continue
                    if df not in (1, 5) and xn not in ('complex', 'one complex', 'real', 'many'):
                        continue
                    ctx.run('%s df %g data %s' % (tag, df, xn), density, ctx, p, m, C, df, x)
        elif what == 'mass':
            if cn in ('scalar', 'diagonal', 'complex', 'real', 'complex diagonal', 'complex scalar'):
                for df in (1, 2.1, 50) if p < 3 else (5,):
                    ctx.run('%s df %g' % (tag, df), mass, ctx, p, m, C, df)
        else:
            for n in (1, 2, 4) if p < 5 else (1, 3):
                for df in (1, 2.1, 50):
                    ctx.run('%s df %g size %d' % (tag, df, n), samples, ctx, p, m, C, df, n)
