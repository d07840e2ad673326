"""C06: natural gradient and fixed point are run on the enumerated data sets, starts
(given ones and several random default ones) and normalisations, and on every
sequence of fits with either method of one estimator; all must agree with the
reference solution of Tyler's equation."""
import itertools

import numpy as np

from mc import data, est, ref
from robuststats.estimation import covariance as cov

BOUNDS = {
    'quick': 'multisets of the alphabets (p=1: N<=3, p=2: N=4, every other of p=3: N=5; real/complex), N=1100, p=20, 35, grid p=1..5 x 4 families x 5 starts and '
             '3 random states x 3 normalisations; all sequences of up to 3 fits over {fixed-point, natural gradient} x 2 data sets',
    'thorough': 'all multisets p=2: N<=5, p=3: N=5, grid up to p=8 x 6 families x all starts x 12 random states; fit sequences of length 4',
}
RULE = 'a case is (data set, start or random state, normalisation, form) or a fit sequence'
LIMIT = {'quick': 400., 'thorough': 3000.}
NG = {False: cov.tyler_shape_matrix_naturalgradient, True: cov.complex_tyler_shape_matrix_naturalgradient}
HOW = ['trace', 'determinant', 'element']


def plan(tier):
    th = tier == 'thorough'
    units = []
    for cplx in (False, True):
        for p, N in ((1, 1), (1, 2), (1, 3), (2, 4), (3, 5)) + (((2, 3), (2, 5)) if th else ()):
            for lo, hi in data.chunks(len(data.multisets(p, cplx, N)), 12):
                units.append(('alpha', cplx, p, N, lo, hi))
        for p, N in [(2, 7), (3, 9), (4, 20), (5, 30)] + ([(6, 25), (8, 60)] if th else []):
            for fam in ('gauss', 'corr', 'heavy', 'scaled') + (('small', 'big') if th else ()):
                units.append(('grid', cplx, p, N, fam))
        for p, N in HARD if not th else HARD + [(4, 5), (4, 60), (8, 40), (2, 500)]:
            for fam in FAMS:
                units.append(('hard', cplx, p, N, fam))
        for p, N in ((2, 1100), (20, 60), (35, 80)):
            units.append(('hard', cplx, p, N, 'gauss'))
        for i in range(2):
            units.append(('seq', cplx, i))
    return units


# few or many observations, badly scaled coordinates, observations or starts
HARD = [(2, 3), (3, 4), (3, 5), (3, 200), (6, 7), (6, 8)]
FAMS = ('gauss', 'small', 'big', 'tiny', 'vast', 'rays', 'illcond', 'sub')


def hard(N, p, cplx, fam):
    if fam not in ('rays', 'illcond', 'sub'):
        return data.gauss(N, p, cplx, 1, fam)
    X = data.gauss(N, p, cplx, 1)
    if fam == 'rays':
        return X*np.logspace(-8, 8, N)[:, None]
    if fam == 'illcond':
        return X*np.logspace(0, -3, p)
    X[::2, 0] *= 1e-2
    return X


def compare(ctx, X, init, how, form, S0, seed=None, fp={}):
    p = X.shape[1]
    cplx = np.iscomplexobj(X)
    if seed is not None:
        np.random.seed(seed)
    kw = {} if init is None else dict(init=init)
    if form == 'class':
        e = est.make('tyler', None, cplx, method='natural gradient', normalisation=how)
        S = e.fit(X, **kw).covariance_
    else:
        S = NG[cplx](X, normalisation=how, **kw)[0]
    ctx.step()
    ctx.ok(np.iscomplexobj(S) == cplx, 'element type', S.dtype)
    ctx.close(S, ref.normalise(S0, how), 1e-4, 'natural gradient differs from Tyler\'s estimate')
    F = est.call('tyler', None, X, tol=1e-11, iter_max=5000, normalisation=how, **fp)[0]
    ctx.step()
    ctx.close(F, ref.normalise(S0, how), 1e-5, 'fixed point differs from Tyler\'s estimate')
    ctx.see(S)
    ctx.trace()


def sequence(ctx, cplx, hist, sets):
    e = est.make('tyler', None, cplx, tol=1e-11, iter_max=5000, normalisation='trace')
    for n, (m, d) in enumerate(hist):
        X, S0 = sets[d]
        e.set_params(method=m)
        e.fit(X)
        ctx.step()
        ctx.close(e.covariance_, ref.trace_norm(S0), 1e-4, 'fit %d of the sequence' % n)
    ctx.trace()


def run_unit(ctx, what, cplx, *u):
    th = ctx.thorough
    if what == 'seq':
        i, = u
        sets = []
        for s in range(2):
            X = data.gauss(9, 2 + i, cplx, s, 'corr')
            sets.append((X, ref.solve('tyler', None, X)))
        letters = list(itertools.product(('fixed-point', 'natural gradient'), (0, 1)))
        for n in range(1, 5 if th else 4):
            for hist in itertools.product(letters, repeat=n):
                if n == 3 and not th and hist[0][1] == 1:
                    continue
                ctx.run('seq %s %d %s' % (cplx, i, hist), sequence, ctx, cplx, hist, sets)
        return
    p, N = u[:2]
    tag = '%s p%d N%d' % ('complex' if cplx else 'real', p, N)
    if what == 'alpha':
        lo, hi = u[2:]
        for j, (name, X) in enumerate(data.multisets(p, cplx, N)[lo:hi], lo):
            if p == 3 and not th and j % 2:
                continue
            S0 = ref.solve('tyler', None, X, tol=3e-13, itmax=300)
            if S0 is None:
                ctx.notes['too_slow'] = ctx.notes.get('too_slow', 0) + 1
                continue
            for k, start in enumerate((None, 'dense')):
                init = None if start is None else data.spd(p, cplx, start)
                ctx.run('%s #%s start=%s' % (tag, name, start), compare, ctx, X, init, HOW[(j + k) % 3],
                        ('function', 'class')[(j + k) % 2], S0, X=X)
        return
    fam, = u[2:]
    if what == 'hard':
        X = hard(N, p, cplx, fam)
        S0 = ref.solve('tyler', None, X, tol=3e-13, itmax=20000)
        if S0 is None:
            ctx.notes['too_slow'] = ctx.notes.get('too_slow', 0) + 1
            return
        for k, start in enumerate(('eye', 'dense', 'bad', 1, 2)):
            seed = start if isinstance(start, int) else None
            init = None if seed else np.diag(np.logspace(4, -4, p)) if start == 'bad' else data.spd(p, cplx, start)
            for form in ('function', 'class') if th else (('function', 'class')[k % 2],):
                ctx.run('%s %s start=%s %s' % (tag, fam, start, form), compare, ctx, X, init, HOW[k % 3], form, S0, seed,
                        dict(init=np.eye(p)) if fam == 'rays' else {}, X=X)     # the default start is numerically singular
        return
    X = data.gauss(N, p, cplx, 0, fam)
    S0 = ref.solve('tyler', None, X, tol=3e-13, itmax=3000)
    for start in ('eye', 'diag', 'small', 'dense', 'solution'):
        init = ref.trace_norm(S0) if start == 'solution' else data.spd(p, cplx, start)
        for how in HOW if th or start in ('dense', 'solution') else HOW[:1]:
            for form in ('function', 'class'):
                if th or how == 'trace':
                    ctx.run('%s %s %s start=%s %s' % (tag, fam, how, start, form), compare, ctx, X, init, how, form, S0, X=X)
    for s in range(12 if th else 3):
        ctx.run('%s %s random state %d' % (tag, fam, s), compare, ctx, X, None, HOW[s % 3], ('function', 'class')[s % 2], S0, s)
