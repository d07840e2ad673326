"""C25: explicit-state search over histories of an online estimator (set_estimate, update,
fit with and without start, parameter changes) on five manifolds against a reference
machine (estimate, step number) that uses the reference retractions."""
import copy
import itertools

import numpy as np
from sklearn.base import clone

from mc import core, data, mani, ref
from robuststats.online.estimation import StochasticGradientCovarianceEstimator

BOUNDS = {
    'quick': '10 estimators (Hermitian, unit determinant, positive vectors, Kronecker and weighted products of one to three factors; directions given as array, list, tuple or tangent vector) x '
             'all histories of <= 3 operations out of 12 (with directions that vanish); fits of 0..40 and 130 observations x 5 rates (integer ones included) x 2 schedules x 3 starts x display on/off and costs that are nan, infinite or increasing; streams of 255..2100 observations',
    'thorough': 'as quick with histories of <= 4 operations and fits of up to 33000 observations',
}
RULE = 'a state is (estimator, estimate, step number) reached by a history of operations'


def natural(S, x):
    """Gaussian natural gradient of one observation"""
    return x.T @ x.conj() - S


class Kind:
    """manifold, direction of the user, covariance of an estimate, starting points"""

    def __init__(self, name):
        self.name = name
        L, P = mani.Leaf, mani.Prod
        if name in ('hpd', 'tyler', 'hpd large'):
            self.L = L('hpd', 12 if name == 'hpd large' else 3)
        elif name == 'shpd':
            self.L = L('shpd', 2)
        elif name == 'spv':
            self.L = L('spv', 3)
        elif name == 'kronecker':
            self.L = P([L('shpd', 2), L('hpd', 2)], alpha=0.9)
        elif name == 'single':
            self.L = P([L('hpd', 3)], (2.,))
        elif name.startswith('three'):
            self.L = P([L('spv', 3), L('hpd', 3), L('spv', 1)], (2., 0.5, 1.))
        else:
            self.L = P([L('spv', 3), L('hpd', 3)], (2., 0.5))
        self.p = {'hpd large': 12, 'shpd': 2, 'kronecker': 4}.get(name, 3)
        self.starts = self.L.points()

    def direction(self, x, S, calls=None):
        n = self.name
        if calls is not None:
            calls.append(np.shape(x))
        if not np.any(x):       # an observation that carries no information: a zero direction
            z = [0.*np.asarray(s) for s in S] if isinstance(self.L, mani.Prod) else 0.*S
            return tuple(z) if 'tuple' in n else z
        if n in ('hpd', 'hpd large'):
            return natural(S, x)
        if n == 'tyler':
            q = np.real(x.conj() @ np.linalg.solve(S, x.T))[0, 0]
            return self.p*x.T @ x.conj()/q - S
        if n == 'shpd':
            return self.L.tproj(S, natural(S, x))
        if n == 'spv':
            return np.abs(x.T)**2 - S
        if n == 'kronecker':
            A, B = S
            M = x.reshape(2, 2)
            q = np.real(np.trace(np.linalg.inv(A) @ M @ np.linalg.inv(B).T @ M.conj().T))
            return [self.L.leaves[0].tproj(A, M @ np.linalg.inv(B).T @ M.conj().T/q*2), M.T @ np.linalg.inv(A).T @ M.conj()/q*2 - B]
        if n == 'single':
            return [natural(S[0], x)]
        d, H = S[:2]      # covariance diag(sqrt d) H diag(sqrt d)
        y = x/np.sqrt(d.T)
        out = (0.5*(np.abs(x.T)**2 - d), natural(H, y))
        if n.startswith('three'):
            out += (0.1*(np.mean(np.abs(x)**2) - S[2]),)
        return out if 'tuple' in n else list(out)

    def cov(self, S):
        n = self.name
        if n == 'spv':
            return np.diag(S[:, 0]).astype(complex)
        if n == 'kronecker':
            return np.kron(*S)
        if n == 'single':
            return S[0]
        if n in ('tuple', 'vector') or n.startswith('three'):
            r = np.sqrt(S[0][:, 0])
            return r[:, None]*S[1]*r*(S[2][0, 0] if len(S) == 3 else 1)
        return S

    def make(self, lrate, verbosity=False, cost=None, calls=None):
        L = self.L

        def rgrad(x, S):
            g = self.direction(x, S, calls)
            if self.name == 'vector':
                return type(L.M.zerovec(S))(g)
            return g
        return StochasticGradientCovarianceEstimator(L.M, rgrad, lrate, None if self.name in ('hpd', 'hpd large', 'tyler', 'shpd') else self.cov, cost, verbosity)

    def retract(self, S, x, t):
        g = self.direction(x, S)
        return self.L.retr(S, [t*v for v in g] if isinstance(g, (list, tuple)) else t*g)


class Machine:
    def __init__(self, K, lrate):
        self.K, self.lrate = K, lrate
        self.S, self.n, self.moved = None, 0, False

    def update(self, x, how):
        if self.S is not None:
            t = self.lrate/(self.n + 1) if how == 'inverse iteration' else self.lrate
            self.S = self.K.retract(self.S, x, t)
            self.n += 1

    def set(self, S):
        self.S = S

    def fit(self, X, S, how):
        if S is None:
            return
        self.S, self.n = S, 0
        for x in X:
            self.update(x[None], how)


def letters(p):
    X = data.gauss(5, p, True, 3)
    X[1] = 0.
    return X


def agrees(ctx, e, m, msg, tol=1e-7):
    K = m.K
    if m.S is None:
        ctx.ok(e.estimate_ is None, msg + ': an estimate although none was set', e.estimate_)
        return
    L = K.L
    ctx.close(L.flat(list(e.estimate_) if isinstance(L, mani.Prod) else e.estimate_), L.flat(m.S), tol, msg + ': estimate')
    C = K.cov(e.estimate_)
    ctx.close(e.covariance_, C, 1e-12, msg + ': covariance_ is not that of the estimate')
    ctx.close(e.covariance_, K.cov(m.S), tol, msg + ': covariance')
    ctx.near(e.get_precision() @ C, np.eye(K.p), 1e-8*np.linalg.cond(C) + 1e-8, msg + ': precision')
    ctx.near(e.location_, np.zeros(K.p), 0., msg + ': location')


INV, CST = 'inverse iteration', 'constant'


def ops(K):
    X = letters(K.p)
    A, B = K.starts[1], K.starts[2]
    out = [('set A', lambda e: e.set_estimate(A), lambda m: m.set(A)), ('set B', lambda e: e.set_estimate(B), lambda m: m.set(B))]
    for i in (0, 1):
        for how in (INV, CST):
            out.append(('update %d %s' % (i, how), lambda e, i=i, how=how: e.update(X[i:i + 1], how), lambda m, i=i, how=how: m.update(X[i:i + 1], how)))
    out.append(('update 2 ' + INV, lambda e: e.update(X[2:3], INV), lambda m: m.update(X[2:3], INV)))
    out.append(('fit A', lambda e: e.fit(X[:3], init=A, lr_update=CST), lambda m: m.fit(X[:3], A, CST)))
    out.append(('fit B', lambda e: e.fit(X[2:], init=B), lambda m: m.fit(X[2:], B, INV)))
    out.append(('fit nothing', lambda e: e.fit(X[:2]), lambda m: None))
    out.append(('rate', lambda e: e.set_params(lrate=0.05), lambda m: setattr(m, 'lrate', 0.05)))
    out.append(('display', lambda e: e.set_params(verbosity=not e.verbosity), lambda m: None))
    return out


def history(ctx, K, word):
    O = ops(K)
    e, m = K.make(0.2), Machine(K, 0.2)
    for i in word:
        name, real, model = O[i]
        undefined = m.S is None and (name.startswith('update') or name == 'fit nothing') or name == 'fit nothing'
        with core.capture_logs() as c:
            r = real(e)
        model(m)
        ctx.step()
        if name[:3] in ('fit', 'upd'):
            ctx.ok(r is e, name + ' does not return the estimator')
        if undefined:
            ctx.ok(len(c.levels('ERROR')) > 0, name + ' without a starting point is not reported')
        else:
            ctx.ok(len(c.levels('ERROR')) == 0, name + ' reports an error', c.records)
        agrees(ctx, e, m, 'after ' + ', '.join(O[j][0] for j in word) + ' (at %s)' % name)
    ctx.trace()
    if m.S is not None:
        ctx.see(K.L.flat(m.S), m.n)


def legal(K, word):
    """set_estimate restarts the stream but says nothing about the rate: histories where the
    decreasing rate would be used after resetting the point in mid-stream are left out"""
    n, S, bad = 0, False, False
    names = [o[0] for o in ops(K)]
    for i in word:
        a = names[i]
        if a.startswith('set'):
            bad, S = n > 0, True
        elif a in ('fit A', 'fit B'):
            n, bad, S = 3, False, True
        elif a.startswith('update') and S:
            if bad and INV in a:
                return False
            n += 1
    return True


def climb():
    n = itertools.count()
    return lambda X, S: float(next(n))


def scribble(S):
    for a in S if isinstance(S, (list, tuple)) else [S]:
        a[...] = 7.


def long(ctx, K, N, how, lrate):
    """a fit of many observations, then a stream that passes the same step numbers"""
    X = data.gauss(N, K.p, True, 6)
    S0 = K.starts[1]
    m = Machine(K, lrate)
    m.fit(X, S0, how)
    e = K.make(lrate).fit(X, init=S0, lr_update=how)
    agrees(ctx, e, m, 'fit of %d observations' % N, 1e-6)
    d = K.make(lrate)
    d.set_estimate(S0)
    for x in X:
        d.update(x[None], how)
    agrees(ctx, d, m, 'stream of %d observations' % N, 1e-6)
    for x in X[:3]:
        m.update(x[None], how)
        d.update(x[None], how)
        e.update(x[None], how)
    agrees(ctx, d, m, 'more observations', 1e-6)
    agrees(ctx, e, m, 'more observations', 1e-6)
    ctx.step(2*N + 6)
    ctx.trace()


def fit(ctx, K, N, lrate, how, s):
    X = data.gauss(N, K.p, True, 6) if N else np.zeros((0, K.p), complex)
    X[1:4:2] = 0.
    S0 = K.starts[s]
    before = copy.deepcopy(S0)
    m = Machine(K, lrate)
    m.fit(X, S0, how)
    fitted = copy.copy(m)
    res = []
    for verb, cost in ((False, None), (True, None), (True, lambda X, S: 1.5), (False, lambda X, S: 2.),
                       (True, lambda X, S: np.nan), (True, lambda X, S: np.inf), (True, lambda X, S: -np.inf), (True, climb()), (True, lambda X, S: 0.)):
        calls = []
        e = K.make(lrate, verb, cost, calls)
        ctx.ok(e.fit(X, init=S0, lr_update=how) is e, 'fit does not return the estimator')
        ctx.step(N)
        agrees(ctx, e, m, 'fit of %d observations' % N, 1e-6)
        ctx.ok(all(c == (1, K.p) for c in calls) and len(calls) == N, 'directions are not asked for one observation at a time', calls)
        res.append(np.array(e.covariance_))
    for r in res[1:]:
        ctx.same(r, res[0], 'display changes the result')
    # again, on the same estimator; on a clone; on a stream of updates
    e.fit(X, init=S0, lr_update=how)
    ctx.same(np.array(e.covariance_), res[0], 'repeating the fit')
    d = K.make(lrate)
    own = copy.deepcopy(S0)
    d.set_estimate(own)
    scribble(own)       # the caller's array is the caller's
    for x in X:
        d.update(x[None], how)
    ctx.close(d.covariance_, res[0], 1e-12, 'stream of updates')
    f = copy.deepcopy(d).fit(X[::-1], init=S0, lr_update=how).fit(X, init=S0, lr_update=how)
    ctx.same(np.array(f.covariance_), res[0], 'fit of a copy after another fit')
    # continuing the stream after a fit
    x = data.gauss(1, K.p, True, 8)
    for q in (e, d):
        q.update(x, how)
        q.update(2*x, CST)
    m.update(x, how)
    m.update(2*x, CST)
    agrees(ctx, e, m, 'updates after a fit', 1e-6)
    agrees(ctx, d, m, 'updates after updates', 1e-6)
    own = copy.deepcopy(S0)
    h = K.make(lrate).fit(X, init=own, lr_update=how)
    scribble(own)
    ctx.same(np.array(h.covariance_), res[0], 'the estimate shares memory with the starting point')
    agrees(ctx, h, fitted, 'after the starting point was overwritten', 1e-6)
    ctx.step(5*N + 4)
    ctx.ok(core.same(before, S0), 'the starting point is modified')
    if how == INV:
        g = K.make(lrate).fit(X, init=S0)
        ctx.same(np.array(g.covariance_), res[0], 'default schedule')
    ctx.see(res[0])
    ctx.trace()


KINDS = ['hpd', 'tyler', 'shpd', 'spv', 'kronecker', 'tuple', 'vector', 'hpd large', 'single', 'three', 'three tuple']
NOPS = 12


def plan(tier):
    out = []
    for k in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10):
        for a in range(NOPS):
            out.append(('history', k, a))
    for k in range(len(KINDS)):
        for s in range(3):
            out.append(('fit', k, s))
    for k in (0, 3, 5):
        for N in (255, 257, 1001, 2100) + ((10050, 33000) if tier == 'thorough' else ()):
            out.append(('long', k, N))
    return out


def run_unit(ctx, what, k, a):
    K = Kind(KINDS[k])
    if what == 'history':
        for d in range(4 if ctx.thorough else 3):
            for rest in itertools.product(range(NOPS), repeat=d):
                w = (a,) + rest
                if legal(K, w):
                    ctx.run('%s %s' % (K.name, w), history, ctx, K, w)
    elif what == 'long':
        for how, lrate in ((INV, 0.5), (CST, 0.01)):
            ctx.run('%s N=%d %s' % (K.name, a, how), long, ctx, K, a, how, lrate)
    else:
        for N in (0, 1, 2, 5, 40, 130) + ((200,) if ctx.thorough else ()):
            for lrate, how in itertools.product((0.5, 0.1, 1e-3, 1., 1), (INV, CST)):
                if N == 130 and (lrate not in (0.1, 1) or how == CST):
                    continue
                if K.name == 'hpd large' and lrate == 1 and how == CST:
                    continue      # numerically singular estimates
                ctx.run('%s N=%d rate %r %s start %d' % (K.name, N, lrate, how, a), fit, ctx, K, N, lrate, how, a)
