"""C04: breadth-first search over compositions of the generators (linear maps,
permutations, duplication, scalings, phases); in every reached state the converged
estimate must be the image of the original estimate."""
import numpy as np

from mc import data, est, ref

BOUNDS = {
    'quick': 'seed data sets p=1..6 (real/complex, 4 families), Tyler, Student, Huber with 2 parameters; every composition of up to 2 of 15 generators '
             '(3 for p=2 on one family, 1 for the second parameter when p is not 2); single generators on (N,p) = (40,10), (150,3), (1100,2), (90,33)',
    'thorough': 'as quick with depth 3 everywhere, all parameters and 6 families',
}
RULE = 'a state is the data set reached by a composition of generators (deduplicated by value)'
TOL = 1e-12
ITER = 8000
SEEDS = [(1, 4), (2, 5), (2, 9), (3, 8), (4, 20), (6, 25)]


def generators(p, N, cplx):
    """name -> (X -> X', C or None, keeps the M-estimate, keeps Tyler's)"""
    I = np.eye(p)
    r = np.random.RandomState(3 + p)
    G = {}

    def lin(name, C):
        if cplx:
            C = C.astype(complex)
        G[name] = ('lin', C)
    if cplx:
        lin('phase', np.diag(np.exp(1j*np.arange(1, p + 1))))
        lin('scale', np.diag(10.**np.linspace(-1, 1.2, p)*1j))
    else:
        lin('flip', np.diag((-1.)**np.arange(p)))
        lin('scale', np.diag(10.**np.linspace(-1, 1.2, p)))
    lin('shear', I + 2*np.tril(np.ones((p, p)), -1)*(1j if cplx else 1))
    lin('swap', I[::-1])
    lin('dense', r.randn(p, p) + (1j*r.randn(p, p) if cplx else 0) + 2*I)
    lin('times1000', 1e3*I)
    lin('over1000', 1e-3*I)
    G['reverse'] = ('perm', lambda X: X[::-1])
    G['rotate'] = ('perm', lambda X: np.roll(X, 1, axis=0))
    G['double'] = ('dup', lambda X: np.vstack([X, X]))
    G['phases'] = ('unit', lambda X: X*(np.exp(1j*np.arange(len(X)))[:, None] if cplx else ((-1.)**np.arange(len(X)))[:, None]))
    G['rays'] = ('ray', lambda X: X*((0.1 + (np.arange(len(X)) % 7)**2)*(np.exp(0.5j*np.arange(len(X))) if cplx else (-1)**np.arange(len(X))))[:, None])
    G['tiny rows'] = ('ray', lambda X: X*np.where(np.arange(len(X)) % 4 == 3, 1e-9, 1.)[:, None])
    lin('times1e9', 1e9*I)
    lin('over1e9', 1e-9*I)
    return G


def plan(tier):
    units = []
    for cplx in (False, True):
        for p, N in SEEDS:
            for fam in ('gauss', 'corr', 'heavy', 'int') + (('scaled', 'big') if tier == 'thorough' else ()):
                for kind in ('tyler', 'student', 'huber'):
                    units.append((cplx, p, N, fam, kind))
        for p, N in ((10, 40), (3, 150), (2, 1100), (33, 90)):
            for kind in ('tyler', 'student', 'huber'):
                units.append((cplx, p, N, 'gauss', kind))
    return units


def fit(ctx, kind, par, X):
    S, d, it = est.call(kind, par, X, tol=TOL, iter_max=ITER)
    ctx.step()
    return S


def compare(ctx, kind, S, want, msg):
    ctx.ok(np.all(np.isfinite(S)), msg + ': not finite', S)
    if kind == 'tyler':
        S, want = ref.trace_norm(S), ref.trace_norm(want)
    # compare in the frame of the expected matrix: all directions count alike
    W = ref.funm(want, lambda w: w**-0.5)
    ctx.near(W @ S @ W, np.eye(len(S)).astype(S.dtype), 2e-6, msg)
    ctx.see(S)


def check_state(ctx, kind, par, Y, S0, C, msg):
    want = C @ S0 @ C.conj().T
    compare(ctx, kind, fit(ctx, kind, par, Y), want, msg)


def check_class(ctx, kind, par, Y, S0, C, how, msg):
    want = C @ S0 @ C.conj().T
    kw = dict(normalisation=how) if kind == 'tyler' else {}
    e = est.make(kind, par, np.iscomplexobj(Y), tol=TOL, iter_max=ITER, **kw).fit(Y)
    ctx.step()
    compare(ctx, kind, e.covariance_, want, msg + ' (class)')
    if kind == 'tyler' and how != 'None':
        ctx.close(e.covariance_, ref.normalise(want, how), 1e-4, msg + ' (class, %s)' % how)


def run_unit(ctx, cplx, p, N, fam, kind):
    big = p >= 10 or N > 100
    X = data.gauss(N, p, cplx, 0, 'gauss' if fam == 'int' else fam)
    if fam == 'int':
        X = np.round(3*X)
        X = X[np.any(X != 0, axis=1)]
        if not (len(X) > p and data.tyler_exists(X)):
            X = data.gauss(N, p, cplx, 1, 'gauss')
    G = generators(p, N, cplx)
    tag0 = '%s %s p%d N%d %s' % ('complex' if cplx else 'real', kind, p, N, fam)
    for par in (est.PARS[kind] if ctx.thorough else est.PARS[kind][:2]):
        Sref = ref.solve(kind, par, X, tol=3e-13, itmax=6000 if ctx.thorough else 250)
        if Sref is None:
            ctx.notes['too_slow'] = ctx.notes.get('too_slow', 0) + 1
            continue
        S0 = ctx.run('%s %s seed' % (tag0, par), fit, ctx, kind, par, X, X=X)
        if S0 is None:
            continue
        first = par == est.PARS[kind][0]
        depth = 1 if big else 3 if ctx.thorough or (first and p == 2 and fam == 'corr') else \
            2 if first or p == 2 else 1
        frontier = [((), X, np.eye(p, dtype=X.dtype))]
        seen = {X.tobytes()}
        count = 0
        for d in range(depth):
            nxt = []
            for hist, Y, C in frontier:
                for name, (what, g) in G.items():
                    if what == 'ray' and kind != 'tyler':
                        continue
                    if what == 'dup' and name in hist:
                        continue
                    if what == 'lin':
                        Z, C2 = Y @ g.T, g @ C
                    else:
                        Z, C2 = g(Y), C
                    if 'tiny rows' == name and name in hist:
                        continue
                    if np.linalg.cond(C2) > 1e4:
                        continue
                    key = np.ascontiguousarray(Z).tobytes()
                    if key in seen:
                        continue
                    seen.add(key)
                    h = hist + (name,)
                    label = '%s %s %s' % (tag0, par, '>'.join(h))
                    ctx.run(label, check_state, ctx, kind, par, Z, S0, C2, 'estimate of the transformed data', Z=Z)
                    count += 1
                    if d == 0 or count % 7 == 0:
                        how = ('None', 'trace', 'determinant', 'element')[count % 4]
                        ctx.run(label + ' class', check_class, ctx, kind, par, Z, S0, C2, how, 'estimate of the transformed data')
                    ctx.trace()
                    nxt.append((h, Z, C2))
            frontier = nxt
