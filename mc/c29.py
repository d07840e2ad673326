"""C29: pymanopt's gradient solvers are run on every scalar manifold of the package, from
every start of a list, for cost functions whose minimisers are known (Gaussian likelihoods
of a target, centres of mass of all multisets of points, distances); the point reached
must be that minimiser, the cost may not have increased, and all starts and solvers agree."""
import itertools

import numpy as np
from pymanopt import Problem
from pymanopt.function import Callable
from pymanopt.solvers import ConjugateGradient, SteepestDescent, TrustRegions
from pymanopt.solvers.conjugate_gradient import BetaTypes

from mc import mani

BOUNDS = {
    'quick': '24 manifolds and products x {Gaussian likelihood of 7 targets, centre of mass of all multisets of 2 (1x1..3x3: 3) of 4 points} x 3 starts (and the default one) x '
             '{steepest descent, conjugate gradient with 4 rules (products: 3), trust regions where Hessians are offered}',
    'thorough': 'as quick with 5 starts, multisets of 4 points and larger dimensions',
}
RULE = 'a case is (manifold, cost, target, start, solver)'
LIMIT = {'quick': 400., 'thorough': 3000.}
SOLVERS = {
    'sd': lambda: SteepestDescent(maxiter=3000, mingradnorm=1e-7, minstepsize=1e-13),
    'cg hs': lambda: ConjugateGradient(maxiter=3000, mingradnorm=1e-7, minstepsize=1e-13),
    'cg fr': lambda: ConjugateGradient(beta_type=BetaTypes.FletcherReeves, maxiter=3000, mingradnorm=1e-7, minstepsize=1e-13),
    'cg pr': lambda: ConjugateGradient(beta_type=BetaTypes.PolakRibiere, maxiter=3000, mingradnorm=1e-7, minstepsize=1e-13),
    'cg hz': lambda: ConjugateGradient(beta_type=BetaTypes.HagerZhang, maxiter=3000, mingradnorm=1e-7, minstepsize=1e-13),
    'tr': lambda: TrustRegions(maxiter=300, mingradnorm=1e-7),
}


def names(tier):
    small, big = mani.table()
    out = [n for n, mk in small if not (n.startswith('spv') and n.split()[2] != '1')]
    out = [n for n in out if n != 'product decreasing']
    return out + ([n for n, mk in big] if tier == 'thorough' else [])


def make(name):
    small, big = mani.table()
    return dict(small + big)[name]()


# -- costs: value, gradient and Hessian of the Gaussian likelihood in ambient coordinates --
def leaf_cost(l, C):
    if l.kind == 'spv':
        return (lambda x: np.sum(C/x + np.log(x)), lambda x: 1/x - C/x**2, lambda x, u: u*(2*C/x**3 - 1/x**2))

    def f(x):
        return np.sum(np.real(mani.trs(np.linalg.solve(x, C))) + np.linalg.slogdet(x)[1])

    def g(x):
        i = np.linalg.inv(x)
        return i - i @ C @ i

    def h(x, u):
        i = np.linalg.inv(x)
        a, b = i @ u @ i, i @ C @ i
        return b @ u @ i + i @ u @ b - a
    return f, g, h


def leaf_best(l, C):
    if l.kind == 'shpd':
        return C/np.exp(np.real(np.linalg.slogdet(C)[1])/l.n)[..., None, None] if l.k > 1 else C/np.exp(np.linalg.slogdet(C)[1]/l.n)
    return C


def lift(m, parts):
    """sum of costs of the factors of a product"""
    def f(x):
        return sum(p[0](y) for p, y in zip(parts, x))

    def g(x):
        return [p[1](y) for p, y in zip(parts, x)]

    def h(x, u):
        return [p[2](y, v) for p, y, v in zip(parts, x, u)]
    return f, g, h


def likelihood(m, C):
    if isinstance(m, mani.Prod):
        return lift(m, [leaf_cost(l, c) for l, c in zip(m.leaves, C)]), [leaf_best(l, c) for l, c in zip(m.leaves, C)]
    return leaf_cost(m, C), leaf_best(m, C)


def kron_likelihood(m, C):
    """Gaussian likelihood of A kron B with data covariance A0 kron B0"""
    la, lb = m.leaves
    A0, B0 = [c if la.k > 1 else c[None] for c in C]

    def parts(x):
        return [c if la.k > 1 else c[None] for c in x]

    def f(x):
        A, B = parts(x)
        return np.sum(np.real(mani.trs(np.linalg.solve(A, A0))*mani.trs(np.linalg.solve(B, B0))) +
                      lb.n*np.linalg.slogdet(A)[1] + la.n*np.linalg.slogdet(B)[1])

    def g(x):
        A, B = parts(x)
        iA, iB = np.linalg.inv(A), np.linalg.inv(B)
        tA, tB = np.real(mani.trs(iA @ A0)), np.real(mani.trs(iB @ B0))
        gA = lb.n*iA - tB[:, None, None]*(iA @ A0 @ iA)
        gB = la.n*iB - tA[:, None, None]*(iB @ B0 @ iB)
        return [gA if la.k > 1 else gA[0], gB if la.k > 1 else gB[0]]
    d = np.exp(np.linalg.slogdet(A0)[1]/la.n)[:, None, None]
    best = [A0/d, B0*d]
    return (f, g, None), best if la.k > 1 else [b[0] for b in best]


def leaf_centre(l, P):
    def dual(x, u):
        return u/x**2 if l.kind == 'spv' else np.linalg.solve(x, np.swapaxes(np.conj(np.linalg.solve(x, u)), -1, -2))

    def f(x):
        return sum(np.sum(l.inner(x, v, v)) for v in (l.log(x, p) for p in P))/2

    def g(x):
        return -sum(dual(x, l.log(x, p)) for p in P)
    return f, g, None


def leaf_mean(l, P):
    x, t, last = P[0], 1., np.inf
    for _ in range(500):
        v = sum(l.log(x, p) for p in P)/len(P)
        size = np.sqrt(np.sum(l.inner(x, v, v)))
        if size > last:
            t /= 2
        last = size
        if size < 1e-11:
            break
        x = l.exp(x, t*v)
    assert size < 1e-8, 'reference centre of mass not found'
    return x


def centre(m, P):
    if isinstance(m, mani.Prod):
        cols = list(zip(*P))
        return lift(m, [leaf_centre(l, c) for l, c in zip(m.leaves, cols)]), [leaf_mean(l, c) for l, c in zip(m.leaves, cols)]
    return leaf_centre(m, P), leaf_mean(m, P)


def apart(m, x, y):
    v = m.log(x, y)
    if isinstance(m, mani.Prod):
        return np.sqrt(sum(np.sum(l.inner(a, b, b)) for l, a, b in zip(m.leaves, x, v)))
    return np.sqrt(np.sum(m.inner(x, v, v)))


def plain(m, x):
    return [np.array(y) for y in x] if isinstance(m, mani.Prod) else np.array(x)


def targets(m):
    """points of moderate condition"""
    return [p for i, p in enumerate(m.points()) if i < (4 if isinstance(m, mani.Prod) or m.kind == 'spv' else 6)]


def near(m, x, i, size=1.):
    return m.exp(x, (lambda u: [size*v for v in u] if isinstance(u, list) else size*u)(m.rough(x, i)))


def spread(f, K):
    """f of a list of K items as a function of K positional arguments, which pymanopt insists on"""
    args = ', '.join('x%d' % i for i in range(K))
    return eval('lambda %s: f([%s])' % (args, args), {'f': f})


def solve(ctx, m, fns, best, start, solver, seed):
    f, g, h = fns
    if isinstance(m, mani.Prod):
        K = len(m.leaves)
        kw = dict(cost=Callable(spread(f, K)), egrad=Callable(spread(g, K)))
        if h is not None:
            kw['ehess'] = Callable(spread(lambda z: h(z[:K], z[K:]), 2*K))
    else:
        kw = dict(cost=Callable(f), egrad=Callable(g))
        if h is not None:
            kw['ehess'] = Callable(h)
    problem = Problem(m.M, verbosity=0, **kw)
    f0 = f(start) if start is not None else np.inf
    state = np.random.get_state()
    np.random.seed(seed)
    try:
        x = SOLVERS[solver]().solve(problem, x=None if start is None else ([y.copy() for y in start] if isinstance(m, mani.Prod) else start.copy()))
    finally:
        np.random.set_state(state)
    ctx.step()
    x = plain(m, x)
    m.member(ctx, x, 'result of the solver', 1e-7)
    ctx.ok(f(x) <= f0 + 1e-9*abs(f0), 'the cost increased', f(x), f0)
    ctx.ok(f(x) <= f(best) + 1e-7*(1 + abs(f(best))), 'the minimum is not reached', f(x), f(best))
    ctx.near(apart(m, best, x), 0, 1e-3, 'distance to the minimiser')
    ctx.see(f(x))
    ctx.trace()


def plan(tier):
    units = []
    for n in names(tier):
        for s in SOLVERS:
            units.append((n, s))
    return units


def run_unit(ctx, name, solver):
    m = make(name)
    th = ctx.thorough
    kron = isinstance(m, mani.Prod) and m.alpha is not None
    hess = not (m.kind == 'shpd' or isinstance(m, mani.Prod) and (m.alpha is not None or any(l.kind == 'shpd' for l in m.leaves)))
    if solver == 'tr' and not hess or solver == 'cg fr' and isinstance(m, mani.Prod):
        return
    T = targets(m)
    starts = [('itself', lambda b, i: T[i]), ('near', lambda b, i: near(m, b, i)), ('random', lambda b, i: None)]
    if th:
        starts += [('far', lambda b, i: near(m, b, i, 3.)), ('beside', lambda b, i: near(m, b, i, 1e-3))]
    for i, C in enumerate(T):
        for how in (likelihood, kron_likelihood) if kron else (likelihood,):
            if how is likelihood and kron and name.split()[3] != '1':
                continue
            fns, best = how(m, C)
            for k, (sname, start) in enumerate(starts):
                ctx.run('%s %s %s target %d start %s' % (name, solver, how.__name__, i, sname), solve, ctx, m, fns, best,
                        start(best, (i + 1 + k) % len(T)), solver, 5 + i)
    if solver == 'tr' or kron:
        return
    for size in (2,) + ((3,) if m.n <= 3 and not isinstance(m, mani.Prod) else ()) + ((4,) if th else ()):
        for idx in itertools.combinations_with_replacement(range(len(T)), size):
            if len(set(idx)) < 2:
                continue
            fns, best = centre(m, [T[i] for i in idx])
            for k, (sname, start) in enumerate(starts):
                if th or (sum(idx) + k) % 3 == 0:
                    ctx.run('%s %s centre %s start %s' % (name, solver, idx, sname), solve, ctx, m, fns, best, start(best, idx[0]), solver, 5)
