"""C18: on every manifold, for all points and all pairs (triples) of tangent basis
vectors, each operation is compared with an independent reference geometry and with the
other operations; the metric, being bilinear, is decided on the bases."""
import itertools

import numpy as np

from mc import laws, mani

BOUNDS = {
    'quick': '28 manifolds (positive vectors, Hermitian positive definite, unit determinant, products, Kronecker elliptical; n up to 3, k up to 3) '
             'x 6-9 points (scales from 1e-7 to 1e7, real element type) x all basis pairs; all pairs/triples of points; 6 larger manifolds (up to 20 / 11x11)',
    'thorough': 'as quick, every step size and all triples of points on the larger manifolds too',
}
RULE = 'a state is (manifold, point(s), direction(s))'


def val(L, x):
    """inner products come as numbers or as a 1 x k row"""
    return np.asarray(x).reshape(-1) if not L.scalar else float(np.squeeze(x))


def total(L, x):
    return float(np.sum(x))


def metric(ctx, L, x, full):
    M = L.M
    B = L.basis(x)
    if not full:
        B = [L.rough(x, i) for i in range(4)]
    G = np.zeros((len(B), len(B)))
    for i, u in enumerate(B):
        for j, v in enumerate(B):
            g = val(L, M.inner(x, u, v))
            size = np.sqrt(total(L, L.inner(x, u, u))*total(L, L.inner(x, v, v)))
            ctx.near(np.asarray(g), np.asarray(L.inner(x, u, v)), 1e-7*size, 'inner product of directions %d and %d' % (i, j))
            G[i, j] = total(L, g)
            ctx.step()
    ctx.close(G, G.T, 1e-8, 'the metric is not symmetric')
    w = np.linalg.eigvalsh(G/np.sqrt(np.outer(np.diag(G), np.diag(G))))
    ctx.ok(w.min() > 1e-6, 'the metric is not positive definite', w)
    for i, u in enumerate(B):
        for c in (1., -3., 1e-3):
            cu = L.add(u, u, c, 0.)
            ctx.close(val(L, M.norm(x, cu)), np.sqrt(np.asarray(L.inner(x, cu, cu))), 1e-7, 'norm of direction %d' % i)
        v = B[(i + 1) % len(B)]
        s = L.add(u, v, 2., -0.7)
        ctx.close(val(L, M.inner(x, s, u)), 2*np.asarray(L.inner(x, u, u)) - 0.7*np.asarray(L.inner(x, v, u)), 1e-6, 'not bilinear')
        ctx.step(4)
    ctx.see(G)


def dirs(L, x, full, scales=(0.1, 1., -1., 2.5)):
    """tangent vectors: basis directions and dense ones, normalised"""
    B = L.basis(x) if full else []
    for i, u in enumerate(B):
        n = np.sqrt(total(L, L.inner(x, u, u)))
        yield 'basis %d' % i, [(s, L.add(u, u, s/n, 0.)) for s in [s*L.reach for s in scales[1:3]]]
    for i in range(3):
        u = L.rough(x, i)
        n = np.sqrt(total(L, L.inner(x, u, u)))
        yield 'dense %d' % i, [(s, L.add(u, u, s/n, 0.)) for s in [s*L.reach for s in scales]]


def geodesics(ctx, L, x, u, s):
    M = L.M

    def same(got, want, tol, msg):
        # rounding is relative to the point
        want = np.asarray(L.flat(want))
        ctx.near(np.asarray(L.flat(got)), want, tol*np.linalg.norm(want) + 1e-13*np.linalg.norm(L.flat(x)), msg)
    y = M.exp(x, u)
    ctx.close(L.flat(y), L.flat(L.exp(x, u)), 1e-7, 'exponential map')
    same(M.log(x, y), u, 1e-6, 'the logarithm does not invert the exponential map')
    ctx.close(val(L, M.dist(x, y)), np.sqrt(np.asarray(L.inner(x, u, u))), 1e-7, 'distance along a geodesic')
    ctx.close(val(L, M.dist(y, x)), np.sqrt(np.asarray(L.inner(x, u, u))), 1e-6, 'distance back')
    # the geodesic is a one-parameter curve: half way twice
    h = M.exp(x, L.add(u, u, 0.5, 0.))
    ctx.close(L.flat(M.exp(h, M.log(h, y))), L.flat(y), 1e-6, 'from half way')
    same(M.log(h, y), M.transp(x, h, L.add(u, u, 0.5, 0.)), 1e-6, 'transport does not carry the velocity')
    t = M.transp(x, y, u)
    same(t, L.add(M.log(y, x), M.log(y, x), -1., 0.), 1e-6, 'transport of the velocity')
    z = M.exp(x, L.add(u, u, 0., 0.))
    ctx.close(L.flat(z), L.flat(x), 1e-9, 'exponential of zero')
    r = M.retr(x, L.add(u, u, 0., 0.))
    ctx.close(L.flat(r), L.flat(x), 1e-9, 'retraction of zero')
    # retraction: agrees with the exponential to second order
    err = []
    for e in (8e-2, 4e-2):
        v = L.add(u, u, e/abs(s), 0.)
        y = L.exp(x, v)
        d = L.log(y, M.retr(x, v))
        err.append(np.sqrt(total(L, L.inner(y, d, d)))/e**3)
    # the difference is e^3/6 times a factor of order one in the metric
    ctx.ok(max(err) < 3*SIZE(L), 'the retraction is not second order', err)
    # and does so for small steps too (up to rounding, which is relative to the point)
    cond = np.linalg.norm(L.flat(x))*np.linalg.norm(L.flat(u))/abs(s) + 1
    for e in (1e-2, 2e-3, 4e-4):
        v = L.add(u, u, e/abs(s), 0.)
        y = L.exp(x, v)
        g = np.linalg.norm(np.asarray(L.flat(M.retr(x, v))) - np.asarray(L.flat(y)))
        top = 3*SIZE(L)*e**3*np.linalg.norm(L.flat(x)) + 1e-13*cond*np.linalg.norm(L.flat(x))
        ctx.ok(g < top, 'the retraction is not second order for small steps', e, g, top)
    ctx.step(14)


def lengthy(L, x):
    """very long moves whose end points are known without rounding trouble: multiples of the
    point, for positive vectors anything (up to the range of the numbers)"""
    def leaf(l, y, c):
        if l.kind == 'spv':
            return y*c*np.cos(np.arange(l.n*l.k)).reshape(l.n, l.k)
        if l.kind == 'hpd':
            return c*y*(np.linspace(1, -0.5, l.k)[:, None, None] if l.k > 1 else 1.)
        return 0.*y
    for c in (-300., -60., -9., 9., 60., 300.):
        u = [leaf(l, y, c) for l, y in zip(L.leaves, x)] if isinstance(L, mani.Prod) else leaf(L, x, c)
        yield c, u


def far(ctx, L, x, u):
    M = L.M

    def each(f, *a):
        return [f(l, *[z[i] for z in a]) for i, l in enumerate(L.leaves)] if isinstance(L, mani.Prod) else [f(L, *a)]

    def end(l, p, v):
        if l.kind == 'spv':
            return p*np.exp(v/p)
        if l.kind == 'shpd':
            return p
        r = np.real(trace(v)/trace(p))
        return p*np.exp(r if l.k == 1 else r[:, None, None])

    def trace(a):
        return np.trace(a, axis1=-2, axis2=-1)

    def compare(got, want, tol, msg):
        # per number: the factors differ by many orders of magnitude
        for g, w in zip(got, want):
            g, w = np.asarray(g), np.asarray(w)
            s = np.abs(w) if w.shape[-2:] != (L.n, L.n) and w.ndim < 3 else np.abs(w).max(axis=(-2, -1), keepdims=True)
            ctx.ok(g.shape == w.shape and bool(np.all(np.abs(g - w) <= tol*s + 1e-300)), msg, g, w)
    one = isinstance(L, mani.Prod)
    y = M.exp(x, u)
    want = each(end, x, u)
    compare(y if one else [y], want, 1e-9, 'exponential map')
    d = np.sqrt(np.asarray(L.inner(x, u, u)))
    ctx.close(val(L, M.dist(x, y)), d, 1e-8, 'distance along a long geodesic')
    ctx.close(val(L, M.dist(y, x)), d, 1e-8, 'distance back along a long geodesic')
    ctx.close(L.flat(M.log(x, y)), L.flat(u), 1e-8, 'logarithm of a far point')
    ctx.close(val(L, M.norm(x, u)), d, 1e-8, 'norm of a long vector')
    back = M.log(y, x)
    ctx.close(np.sqrt(np.asarray(L.inner(y, back, back))), d, 1e-8, 'length of the logarithm back')
    t = M.transp(x, y, u)
    ctx.close(np.sqrt(np.asarray(L.inner(y, t, t))), d, 1e-8, 'length of a vector carried far')
    ctx.step(7)


def SIZE(L):
    w = getattr(L, 'weights', (1.,))
    return max(1., 1/min(w))


def pairs(ctx, L, x, y, full):
    M = L.M
    u = M.log(x, y)
    ctx.near(L.flat(u), L.flat(L.log(x, y)), 1e-6*np.linalg.norm(L.flat(x)), 'logarithm')
    ctx.close(L.flat(M.exp(x, u)), L.flat(y), 1e-6, 'the exponential map does not invert the logarithm')
    d = val(L, M.dist(x, y))
    ctx.close(d, np.sqrt(np.asarray(L.inner(x, L.log(x, y), L.log(x, y)))), 1e-6, 'distance and norm of the logarithm')
    ctx.close(val(L, M.dist(y, x)), d, 1e-6, 'distance is not symmetric')
    B = (L.basis(x) if full else []) + [L.rough(x, 1), L.rough(x, 2)]
    T = []
    for i, v in enumerate(B):
        t = M.transp(x, y, v)
        ctx.close(L.flat(t), L.flat(L.transp(x, y, v)), 1e-6, 'parallel transport of direction %d' % i)
        T.append(t)
        ctx.close(L.flat(M.transp(y, x, t)), L.flat(v), 1e-6, 'transport there and back')
    for i, j in itertools.combinations_with_replacement(range(len(B)), 2):
        if len(B) > 12 and (i + j) % 3:
            continue
        ctx.near(np.asarray(val(L, M.inner(y, T[i], T[j]))), np.asarray(L.inner(x, B[i], B[j])),
                 1e-6*np.sqrt(np.max(L.inner(x, B[i], B[i]))*np.max(L.inner(x, B[j], B[j]))), 'transport does not preserve inner products')
    for i in range(4):
        g = L.action(x, i)
        ctx.near(np.asarray(val(L, M.dist(g(x), g(y)))), np.asarray(d), 1e-5*np.max(d), 'distance is not invariant under isometry %d' % i)
    ctx.step(6 + 3*len(B))
    ctx.see(np.asarray(d))


def distinct(L, x, y):
    """distances between (numerically) equal points are left out, see DESIGN.md"""
    d = L.log(x, y)
    return bool(np.all(np.asarray(L.inner(x, d, d)) > 1e-6))


def triangle(ctx, L, x, y, z):
    a, b, c = [np.asarray(val(L, L.M.dist(*p))) for p in ((x, y), (y, z), (x, z))]
    ctx.ok(bool(np.all(c <= a + b + 1e-7*(1 + a + b))), 'triangle inequality', a, b, c)
    ctx.step(3)


class forced:
    """numpy.random's normal and uniform draws follow a given pattern"""

    def __init__(self, pattern):
        self.pattern, self.i = pattern, 0

    def draw(self, n):
        out = np.array([self.pattern[(self.i + k) % len(self.pattern)]*(1 + 0.37*((self.i + k)//len(self.pattern) % 5)) for k in range(n)])
        self.i += n
        return out

    def __enter__(self):
        self.old = np.random.randn, np.random.standard_normal
        np.random.randn = lambda *s: self.draw(int(np.prod(s))).reshape(s) if s else self.draw(1)[0]
        np.random.standard_normal = lambda size=None: self.draw(1)[0] if size is None else self.draw(int(np.prod(size))).reshape(size)

    def __exit__(self, *a):
        np.random.randn, np.random.standard_normal = self.old


def randvec(ctx, L, x, how):
    if isinstance(how, int):
        np.random.seed(how)
        u = L.M.randvec(x)
    else:
        with forced(how):
            u = L.M.randvec(x)
    ctx.step()
    L.tangent(ctx, x, u, 'random tangent vector', 1e-7)
    n = np.sqrt(np.asarray(L.inner(x, u, u)))
    ctx.close(n, np.ones(np.shape(n)), 1e-7, 'norm of a random tangent vector')
    ctx.see(L.flat(u))


PATTERNS = [(1.,), (1., -1.), (0.3, 2., -1.), (5., 0.1, 0.1, -3.), (1e-3, -2e-3, 1e-3, 4e-3, 1e-3), (100., -50., 7.)]


def plan(tier):
    small, big = mani.table(tier)
    out = []
    for lst, full in ((small, True), (big, False)):
        for i in range(len(lst)):
            for what in ('metric', 'geodesics', 'pairs', 'triangle', 'randvec'):
                out.append((what, i, full))
    return out


def run_unit(ctx, what, i, full):
    L = mani.table(ctx.tier)[0 if full else 1][i][1]()
    pts = L.points()
    if what == 'metric':
        ctx.run('%s dimension' % L.name, lambda: ctx.ok(int(L.M.dim) == L.dim, 'dimension', L.M.dim, L.dim))
    for a, x in enumerate(pts):
        if what == 'metric':
            ctx.run('%s metric at point %d' % (L.name, a), metric, ctx, L, x, full)
        elif what == 'geodesics':
            for name, vs in dirs(L, x, full):
                for s, u in vs:
                    ctx.run('%s point %d %s length %g' % (L.name, a, name, s), geodesics, ctx, L, x, u, s)
            if any(l.kind != 'shpd' for l in getattr(L, 'leaves', [L])):
                for c, u in lengthy(L, x):
                    ctx.run('%s point %d far %g' % (L.name, a, c), far, ctx, L, x, u)
        elif what == 'pairs':
            for b, y in enumerate(pts):
                if distinct(L, x, y):
                    ctx.run('%s points %d %d' % (L.name, a, b), pairs, ctx, L, x, y, full)
        elif what == 'triangle':
            for b, c in itertools.product(range(len(pts)), repeat=2):
                if distinct(L, x, pts[b]) and distinct(L, pts[b], pts[c]) and distinct(L, x, pts[c]):
                    ctx.run('%s points %d %d %d' % (L.name, a, b, c), triangle, ctx, L, x, pts[b], pts[c])
        else:
            for how in PATTERNS + list(range(5)):
                ctx.run('%s point %d random direction %s' % (L.name, a, how), randvec, ctx, L, x, how)
