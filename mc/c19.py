"""C19: the conversions being linear, they are decided on bases: for every ambient basis
gradient and every tangent basis vector (pair) at every point, metric products of the
converted gradient (Hessian) are compared with derivatives along reference geodesics."""
import itertools

import numpy as np

from mc import mani, data
from mc.c17 import extrinsic

BOUNDS = {
    'quick': 'gradients: 28 manifolds (n up to 3, k up to 3, products, Kronecker elliptical) x 6-9 points (scales from 1e-7 to 1e7, real element type) x every ambient basis gradient x every tangent basis vector; '
             'Hessians: 14 manifolds offering them x points x every basis (gradient or Hessian) x tangent basis pairs, and second differences of '
             'three functions along geodesics; 6 larger manifolds (up to 20 / 11x11) with dense directions',
    'thorough': 'as quick with dense combinations and all points on the larger manifolds',
}
RULE = 'a state is (manifold, point, Euclidean gradient or Hessian basis element)'


def dot(L, a, b):
    return float(L.flat(a) @ L.flat(b))


def ascomplex(L, a):
    return a


def flats(L, vs):
    return np.array([L.flat(v) for v in vs])


def pairing(L, vs, us):
    """Re tr(g^H u) for lists of ambient vectors"""
    def fl(v):
        if isinstance(L, mani.Prod):
            return np.concatenate([fl1(l, w) for l, w in zip(L.leaves, v)])
        return fl1(L, v)

    def fl1(l, w):
        w = np.asarray(w).ravel()
        return w if l.kind == 'spv' else np.concatenate([w.real, np.imag(w)])
    A = np.array([fl(v) for v in vs])
    B = np.array([fl(u) for u in us])
    return A @ B.T


def tot(L, *a):
    return float(np.sum(L.inner(*a)))


def grams(L, x, us):
    n = np.sqrt([tot(L, x, u, u) for u in us])
    return [L.add(u, u, 1/s, 0.) for u, s in zip(us, n)]


def gradient(ctx, L, x, full):
    M = L.M
    us = grams(L, x, (L.basis(x) if full else []) + [L.rough(x, i) for i in range(3)])
    gs = (L.ambient() if full else []) + [extrinsic(L, x, i) for i in range(3)]
    D = pairing(L, gs, us)
    R = []
    for i, g in enumerate(gs):
        r = M.egrad2rgrad(x, g)
        ctx.step()
        L.tangent(ctx, x, r, 'Riemannian gradient %d' % i, 1e-7)
        size = np.abs(D[i]).max() + 1e-3*np.abs(D).max()
        for j, u in enumerate(us):
            ctx.near(tot(L, x, r, u), D[i, j], 1e-7*size, 'derivative of function %d along direction %d' % (i, j))
        R.append(r)
    for i in range(len(gs)):
        j = (i + 1) % len(gs)
        s = M.egrad2rgrad(x, L.add(gs[i], gs[j], 2., -3.))
        ctx.near(L.flat(s), L.flat(L.add(R[i], R[j], 2., -3.)), 1e-9*(np.linalg.norm(L.flat(R[i])) + np.linalg.norm(L.flat(R[j]))) + 1e-300, 'not linear %d' % i)
        ctx.step()
    ctx.see(D)


def accel(L, x, u, v):
    """sym of the acceleration term of geodesics"""
    if isinstance(L, mani.Prod):
        return [accel(l, a, b, c) for l, a, b, c in zip(L.leaves, x, u, v)]
    if L.kind == 'spv':
        return u*v/x
    a = u @ np.linalg.solve(x, v)
    return (a + np.conj(np.swapaxes(a, -1, -2)))/2


def hessian(ctx, L, x, full):
    """<Hess u, v> = ehess(u).v + egrad.acc(u, v), separately in egrad and ehess"""
    M = L.M
    us = grams(L, x, (L.basis(x) if full else []) + [L.rough(x, i) for i in range(2)])
    gs = (L.ambient() if full else []) + [extrinsic(L, x, i) for i in range(3)]
    zero = L.add(gs[0], gs[0], 0., 0.)
    D = pairing(L, gs, us)
    acc = {(j, k): accel(L, x, us[j], us[k]) for j, k in itertools.product(range(len(us)), repeat=2)}
    keys = list(acc)
    A = pairing(L, gs, [acc[k] for k in keys])
    for i, g in enumerate(gs):
        size = np.abs(D[i]).max() + 1e-3*np.abs(D).max()
        sizea = np.abs(A[i]).max() + 1e-3*np.abs(A).max()
        Q = {}
        for j, u in enumerate(us):
            h = M.ehess2rhess(x, zero, g, u)
            ctx.step()
            L.tangent(ctx, x, h, 'Riemannian Hessian', 1e-7)
            for k, v in enumerate(us):
                ctx.near(tot(L, x, h, v), D[i, k], 1e-7*size, 'second-order term %d along %d, %d' % (i, j, k))
            h = M.ehess2rhess(x, g, zero, u)
            ctx.step()
            L.tangent(ctx, x, h, 'Riemannian Hessian', 1e-7)
            for k, v in enumerate(us):
                Q[j, k] = tot(L, x, h, v)
        for n, k in enumerate(keys):
            ctx.near(Q[k], A[i, n], 1e-7*sizea, 'curvature term of gradient %d along %s' % (i, k))
            ctx.near(Q[k], Q[k[::-1]], 1e-7*sizea, 'Hessian is not self-adjoint, gradient %d along %s' % (i, k))
        j = (i + 1) % len(gs)
        u = us[i % len(us)]
        s = M.ehess2rhess(x, g, gs[j], u)
        t = L.add(M.ehess2rhess(x, g, zero, u), M.ehess2rhess(x, zero, gs[j], u))
        ctx.near(L.flat(s), L.flat(t), 1e-9*(np.linalg.norm(L.flat(t)) + 1e-3*np.linalg.norm(L.flat(x))), 'not jointly linear %d' % i)
        ctx.step(3)
    ctx.see(A)


def funcs(l):
    """functions of one leaf: value, gradient, Hessian"""
    if l.kind == 'spv':
        c = np.arange(1., l.n + 1)[:, None]*np.ones(l.k)
        return [(lambda x: np.sum(c*np.log(x)), lambda x: c/x, lambda x, u: -c*u/x**2),
                (lambda x: np.sum(c*x**3), lambda x: 3*c*x**2, lambda x, u: 6*c*x*u),
                (lambda x: np.sum(x)**2/2, lambda x: np.sum(x)*np.ones_like(x), lambda x, u: np.sum(u)*np.ones_like(x))]
    D = data.spd(l.n, True, 'fourth')
    inv = np.linalg.inv
    eye = np.eye(l.n)

    def tr(a):
        return float(np.sum(np.real(mani.trs(a))))
    return [(lambda x: tr(D @ inv(x)), lambda x: -inv(x) @ D @ inv(x), lambda x, u: inv(x) @ u @ inv(x) @ D @ inv(x) + inv(x) @ D @ inv(x) @ u @ inv(x)),
            (lambda x: tr(x @ D @ x), lambda x: D @ x + x @ D, lambda x, u: D @ u + u @ D),
            (lambda x: float(np.sum(np.linalg.slogdet(x)[1])) + tr(x)**2/2, lambda x: inv(x) + tr(x)*np.broadcast_to(eye, x.shape),
             lambda x, u: -inv(x) @ u @ inv(x) + tr(u)*np.broadcast_to(eye, x.shape))]


def function(L, i):
    if isinstance(L, mani.Prod):
        fs = [funcs(l)[(i + j) % 3] for j, l in enumerate(L.leaves)]
        return (lambda x: sum(f[0](y) for f, y in zip(fs, x)), lambda x: [f[1](y) for f, y in zip(fs, x)],
                lambda x, u: [f[2](y, v) for f, y, v in zip(fs, x, u)])
    return funcs(L)[i]


def curve(ctx, L, x, i, u, hess):
    """first and second derivatives along the package's own geodesic"""
    M = L.M
    f, g, h = function(L, i)
    t = 1e-2
    v = [f(M.exp(x, L.add(u, u, k*t, 0.))) for k in (-2, -1, 0, 1, 2)]
    d1 = (v[0] - 8*v[1] + 8*v[3] - v[4])/(12*t)
    d2 = (-v[0] + 16*v[1] - 30*v[2] + 16*v[3] - v[4])/(12*t*t)
    r = M.egrad2rgrad(x, g(x))
    ctx.step(7)
    scale = max(abs(v[4] - v[2]), abs(v[0] - v[2]))/t + 1e-2*abs(v[2])
    ctx.near(tot(L, x, r, u), d1, 3e-4*scale, 'derivative of function %d along a geodesic' % i)
    if hess:
        H = M.ehess2rhess(x, g(x), h(x, u), u)
        ctx.near(tot(L, x, H, u), d2, 1e-3*scale, 'second derivative of function %d along a geodesic' % i)
    ctx.trace()


def htable():
    L, P = mani.Leaf, mani.Prod
    return [lambda: L('spv', 1), lambda: L('spv', 3), lambda: L('spv', 2, 2), lambda: L('spv', 3, 3), lambda: L('hpd', 1), lambda: L('hpd', 2), lambda: L('hpd', 3),
            lambda: L('hpd', 2, 2), lambda: L('hpd', 2, 3), lambda: P([L('hpd', 2), L('hpd', 3)]), lambda: P([L('hpd', 2), L('hpd', 2)], (0.5, 3.)),
            lambda: P([L('spv', 3), L('hpd', 2)], (2., 0.25)), lambda: P([L('hpd', 2), L('spv', 2), L('hpd', 1)], (300., 1., 0.002)), lambda: P([L('hpd', 2, 2), L('hpd', 1, 2)], (3., 0.5)), lambda: P([L('spv', 2), L('spv', 3)], (3., 0.5))]


def plan(tier):
    small, big = mani.table(tier)
    out = []
    for i in range(len(small)):
        for pt in range(9):
            out.append(('gradient', i, True, pt))
    for i in range(len(big)):
        for pt in range(9 if tier == 'thorough' else 3):
            out.append(('gradient', i, False, pt))
    for i in range(len(htable())):
        for pt in range(9):
            out.append(('hessian', i, True, pt))
    return out


def run_unit(ctx, what, i, full, pt):
    L = (htable()[i] if what == 'hessian' else mani.table(ctx.tier)[0 if full else 1][i][1])()
    pts = L.points()
    if pt >= len(pts):
        return
    x = pts[pt]
    if what == 'hessian':
        ctx.run('%s Hessians at point %d' % (L.name, pt), hessian, ctx, L, x, L.dim <= (60 if ctx.thorough else 18))
    else:
        ctx.run('%s gradients at point %d' % (L.name, pt), gradient, ctx, L, x, full and L.dim <= (200 if ctx.thorough else 30))
    for j in range(3):
        u = L.rough(x, j)
        u = L.add(u, u, L.reach/np.sqrt(tot(L, x, u, u)), 0.)
        for f in range(3):
            ctx.run('%s point %d direction %d function %d' % (L.name, pt, j, f), curve, ctx, L, x, f, u, what == 'hessian')
