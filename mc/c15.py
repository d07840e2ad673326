"""C15: every combination of omitted/scalar/real/complex mean, covariance and data form
is evaluated and compared with the closed-form (circular) Gaussian; the law of the
samples is read off exactly from the response of rvs to every basis noise vector."""
import itertools

import numpy as np
from scipy import stats

from mc import core, data, laws, ref
from robuststats.models.probability import complex_multivariate_normal as CN

BOUNDS = {
    'quick': 'p=1..4, 7, 15, 33: 6 kinds of mean x 9 kinds of covariance x 7 forms of data, frozen and not; cdf/logcdf up to p=2 complex '
             '(tolerance of the quadrature), exact for diagonal; rvs: all basis noise vectors, sizes 1..4; seeds; warnings',
    'thorough': 'p up to 40, cdf up to p=3',
}
RULE = 'a state is (mean kind, covariance kind, form)'


def means(p):
    r = data.gauss(2, p, True, 1)
    return [('omitted', None), ('zero', np.zeros(p)), ('real', r[0].real), ('complex', r[0]), ('complex zero', np.zeros(p, complex)),
            ('imaginary', 1j*r[1].imag), ('integers', np.arange(p) - 1), ('list', list(r[1].real))]


def covs(p):
    S, R = data.spd(p, True, 'dense'), data.spd(p, False, 'dense')
    d = np.linspace(0.5, 2, p)
    out = [('omitted', None), ('scalar', 1.7), ('complex scalar', 0.6 + 0j), ('diagonal', d), ('complex diagonal', d + 0j), ('real', R),
           ('complex', S), ('complex typed real', R + 0j), ('small', S*1e-4), ('large real', R*1e3)]
    return out


def full(p, m, C):
    """(complex?, mean, covariance)"""
    cplx = np.iscomplexobj(m) or np.iscomplexobj(C)
    t = complex if cplx else float
    m = np.zeros(p) if m is None else np.asarray(m)
    C = np.asarray(1. if C is None else C)
    C = C*np.eye(p) if C.ndim == 0 else (np.diag(C) if C.ndim == 1 else C)
    return cplx, m.astype(t), C.astype(t)


def legal(p, mn, cn):
    # an omitted mean takes its size from the covariance
    return p == 1 or mn != 'omitted' or cn not in ('omitted', 'scalar', 'complex scalar', 'diagonal')


def kwargs(m, C):
    kw = {}
    if m is not None:
        kw['mean'] = m
    if C is not None:
        kw['cov'] = C
    return kw


def forms(p):
    Z = data.gauss(5, p, True, 3, 'corr')*1.2
    out = [('complex', Z), ('real', Z.real.copy()), ('one complex', Z[0]), ('one real', Z[1].real.copy()), ('imaginary', 1j*Z.imag),
           ('complex typed real', Z.real + 0j), ('one row', Z[:1]), ('Fortran', np.asfortranarray(Z)), ('integers', np.round(2*Z.real).astype(int)),
           ('many', data.gauss(1537, p, True, 4))]
    return out


def reading(x, cplx, p):
    x = np.asarray(x)
    x = x.astype(complex) if cplx else np.real(x).astype(float)
    return x.reshape(-1, p)


def density(ctx, p, mn, m, cn, C, xn, x):
    cplx, M, K = full(p, m, C)
    y = reading(x, cplx, p)
    want = ref.normal_logpdf(y, M, K)
    kw = kwargs(m, C)
    fz = CN(**kw)
    for who, d, k in (('', CN, kw), ('frozen ', fz, {})):
        a = d.logpdf(x, **k)
        ctx.ok(np.isrealobj(a), who + 'logpdf is complex')
        ctx.close(np.ravel(a), want, 1e-9, who + 'logpdf')
        b = d.pdf(x, **k)
        ctx.ok(np.isrealobj(b), who + 'pdf is complex')
        ctx.close(np.ravel(b), np.exp(want), 1e-8, who + 'pdf')
        ctx.ok(np.size(a) == len(y) and np.size(b) == len(y), 'number of values')
        if np.asarray(x).ndim == 2 and len(y) > 1:
            ctx.ok(np.shape(a) == (len(y),), 'shape of the result', np.shape(a))
    # positional
    if m is not None and C is not None:
        ctx.close(np.ravel(CN.logpdf(x, m, C)), want, 1e-9, 'positional arguments')
    ctx.step(4)
    ctx.see(np.asarray(want)[:2])


def entropy(ctx, p, m, C):
    cplx, M, K = full(p, m, C)
    want = p*np.log(np.pi*np.e) + ref.logdet(K) if cplx else 0.5*(p*np.log(2*np.pi*np.e) + ref.logdet(K))
    kw = kwargs(m, C)
    ctx.close(float(CN.entropy(**kw)), float(want), 1e-9, 'entropy')
    ctx.close(float(CN(**kw).entropy()), float(want), 1e-9, 'frozen entropy')
    ctx.step(2)


def cdf(ctx, p, m, C, x, tol):
    cplx, M, K = full(p, m, C)
    y = reading(x, cplx, p)
    if cplx:
        y, M, K = np.hstack([y.real, y.imag]), np.concatenate([M.real, M.imag]), ref.realequiv(K)
    if np.allclose(K, np.diag(np.diag(K))):
        want = np.prod(stats.norm.cdf((y - M)/np.sqrt(np.diag(K))), axis=1)
    else:
        want = np.atleast_1d(stats.multivariate_normal(M, K).cdf(y))
    kw = kwargs(m, C)
    for who, d, k in (('', CN, kw), ('frozen ', CN(**kw), {})):
        got = np.ravel(d.cdf(x, **k))
        ctx.ok(np.isrealobj(got), who + 'cdf is complex')
        ctx.near(got, want, tol, who + 'cdf')
        if want.min() > 0.05:
            ctx.near(np.ravel(np.real(d.logcdf(x, **k))), np.log(want), 30*tol, who + 'logcdf')
    ctx.step(4)


def singular(ctx, p, r):
    """rank r covariance, allow_singular"""
    U = np.linalg.qr(data.gauss(p, p, True, 2))[0][:, :r]
    S = (U*np.linspace(1, 2, r)) @ U.conj().T
    S = (S + S.conj().T)/2
    m = data.gauss(1, p, True, 1)[0]
    x = m + data.gauss(3, r, True, 5) @ U.T
    w = np.linspace(1, 2, r)
    q = np.sum(np.abs((x - m) @ U.conj())**2/w, axis=1)
    want = -r*np.log(np.pi) - np.sum(np.log(w)) - q
    ctx.close(CN.logpdf(x, m, S, allow_singular=True), want, 1e-8, 'singular logpdf')
    ctx.close(CN.pdf(x, m, S, allow_singular=True), np.exp(want), 1e-8, 'singular pdf')
    ctx.close(CN(m, S, allow_singular=True).logpdf(x), want, 1e-8, 'frozen singular logpdf')
    R = ref.realequiv(S)
    for bad, name in ((S, 'singular covariance'), (-np.eye(p) + 0j, 'negative covariance'), (S - 2*np.trace(S).real*np.diag([1.] + [0.]*(p - 1)), 'indefinite covariance'),
                      (S*1e-5, 'small singular covariance'), (S*1e5, 'large singular covariance')):
        for fn in ('logpdf', 'pdf', 'cdf', 'logcdf'):
            ctx.raises(lambda: getattr(CN, fn)(x, m, bad), '%s of a %s' % (fn, name))
            if 'singular' in name:
                ctx.raises(lambda: getattr(CN, fn)(x, m, bad, allow_singular=False), '%s of a %s' % (fn, name))
            else:
                ctx.raises(lambda: getattr(CN, fn)(x, m, bad, allow_singular=True), '%s of a %s, singular ones allowed' % (fn, name))
        ctx.raises(lambda: CN(m, bad), 'frozen model of a %s' % name)
        if 'singular' not in name:
            ctx.raises(lambda: CN.entropy(m, bad), 'entropy of a %s' % name)
        ctx.step(10)
    want = r*np.log(np.pi*np.e) + np.sum(np.log(w))
    ctx.close(float(CN.entropy(m, S)), want, 1e-8, 'singular entropy')
    ctx.close(float(CN(m, S, allow_singular=True).entropy()), want, 1e-8, 'frozen singular entropy')
    if p > 1:
        law = stats.multivariate_normal(np.concatenate([m.real, m.imag]), R, allow_singular=True)
        y = np.hstack([x.real, x.imag])
        if p == 2:
            ctx.near(CN.cdf(x, m, S, allow_singular=True), law.cdf(y), 3e-3, 'singular cdf')
    ctx.step(3)


def samples(ctx, p, m, C, n):
    cplx, M, K = full(p, m, C)
    kw = kwargs(m, C)
    frozen = CN(**kw)
    for who, f in (('', lambda r: CN.rvs(size=n, random_state=r, **kw)), ('frozen ', lambda r: frozen.rvs(size=n, random_state=r))):
        out = f(np.random.RandomState(3))
        ctx.ok(np.size(out) == n*p and np.iscomplexobj(out) == cplx, who + 'sample', np.shape(out))
        if n > 1 and (p > 1 or cplx):
            ctx.ok(np.shape(out) == (n, p), who + 'shape of the sample', np.shape(out))
        laws.gaussian_law(ctx, f, n, p, M, K, cplx)
    a, b = CN.rvs(size=n, random_state=5, **kw), frozen.rvs(size=n, random_state=5)
    ctx.same(a, b, 'frozen and unfrozen samples of one seed')
    ctx.same(a, CN.rvs(size=n, random_state=5, **kw), 'samples of one seed')
    ctx.same(a, CN.rvs(size=n, random_state=np.random.RandomState(5), **kw), 'seed and random state')
    ctx.same(a, CN(seed=5, **kw).rvs(size=n), 'seed of the frozen model')
    z = CN(seed=5, **kw)
    z.rvs(size=n)
    ctx.ok(not core.same(z.rvs(size=n), a), 'a frozen model repeats its first sample')
    ctx.ok(not core.same(CN.rvs(size=n, random_state=6, **kw), a), 'two seeds give one sample')
    np.random.seed(5)
    ctx.same(a, CN.rvs(size=n, **kw), 'sample of the global random state')
    np.random.seed(5)
    ctx.same(a, frozen.rvs(size=n), 'frozen sample of the global random state')
    ctx.see(a)


def plan(tier):
    th = tier == 'thorough'
    ps = (1, 2, 3, 4, 7, 15, 33) + ((25, 40) if th else ())
    units = [('density', p, i) for p in ps for i in range(8)]
    units += [('entropy', p) for p in ps]
    units += [('cdf', p, i) for p in ((1, 2) if not th else (1, 2, 3)) for i in range(8)]
    units += [('singular',)]
    units += [('samples', p, i) for p in (1, 2, 3, 5) for i in range(8)]
    return units


def run_unit(ctx, what, *u):
    if what == 'singular':
        for p in (2, 3, 5):
            for r in range(1, p):
                ctx.run('rank %d of %d' % (r, p), singular, ctx, p, r)
        return
    p = u[0]
    for mn, m in (means(p) if len(u) == 1 else means(p)[u[1]:u[1] + 1]):
        for cn, C in covs(p):
            if not legal(p, mn, cn):
                continue
            tag = '%s p=%d mean %s cov %s' % (what, p, mn, cn)
            if what == 'density':
                for xn, x in forms(p):
                    if p == 1 and np.ndim(x) == 1 and len(x) > 1:
                        continue
                    ctx.run('%s data %s' % (tag, xn), density, ctx, p, mn, m, cn, C, xn, x)
            elif what == 'entropy':
                ctx.run(tag, entropy, ctx, p, m, C)
            elif what == 'cdf':
                if cn in ('small', 'large real') or (p == 2 and mn in ('list', 'integers', 'complex zero')):
                    continue
                for xn, x in forms(p)[:6]:
                    s = np.asarray(x)[..., :]
                    ctx.run('%s data %s' % (tag, xn), cdf, ctx, p, m, C, s if s.ndim == 1 else s[:2], 2e-3)
            else:
                for n in (1, 2, 4) if p < 5 else (1, 3):
                    ctx.run('%s size %d' % (tag, n), samples, ctx, p, m, C, n)
