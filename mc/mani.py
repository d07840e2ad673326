"""The manifolds of the package next to an independent reference geometry."""
import itertools

import numpy as np

from mc import data
from robuststats.models import manifolds as man


def herm(u):
    return (u + np.conj(np.swapaxes(u, -1, -2)))/2


def funs(S, f):
    w, V = np.linalg.eigh(S)
    return (V*f(w)[..., None, :]) @ np.conj(np.swapaxes(V, -1, -2))


def trs(a):
    return np.trace(a, axis1=-2, axis2=-1)


class Leaf:
    def __init__(self, kind, n, k=1):
        self.kind, self.n, self.k = kind, n, k
        self.name = '%s n=%d k=%d' % (kind, n, k)
        self.M = {'spv': man.StrictlyPositiveVectors, 'hpd': man.HermitianPositiveDefinite, 'shpd': man.SpecialHermitianPositiveDefinite}[kind](n, k)
        self.reach = 1.
        self.dim = k*{'spv': n, 'hpd': n*n, 'shpd': n*n - 1}[kind]
        self.scalar = not (kind == 'spv' and k > 1)    # inner products come per column otherwise

    # -- points -----------------------------------------------------------
    def _one(self, i):
        n = self.n
        S = [np.eye(n), np.diag(np.linspace(0.5, 2, n)) if n > 1 else np.eye(1)*3., data.spd(n, True, 'dense'), data.spd(n, True, 'another'),
             np.diag(np.logspace(-1.5, 1.5, n)) + 0.01*np.ones((n, n)), 40*data.spd(n, True, 'third!'),
             1e-7*data.spd(n, True, 'dense'), 3e7*data.spd(n, True, 'another'), data.spd(n, False, 'dense')][i % 9].astype(complex)
        if self.kind == 'shpd':
            S = S/np.real(np.linalg.det(S))**(1/n)
        return S

    def points(self):
        if self.kind == 'spv':
            base = [np.ones(self.n), np.linspace(0.5, 2, self.n), np.linspace(3, 0.2, self.n)**2, np.logspace(-2, 2, self.n),
                    1e-7*np.linspace(1, 2, self.n), 1e7*np.linspace(2, 1, self.n)]
            return [np.stack([base[(i + j) % 4] for j in range(self.k)], axis=1) for i in range(4)] + [np.stack([base[i]*(1 + j) for j in range(self.k)], axis=1) for i in (4, 5)]
        if self.k == 1:
            # the last one is of real element type
            return [self._one(i) for i in range(8)] + [np.real(self._one(8))]
        # matrices of one scale in a stack: the rounding of the largest is all that can be asked of the whole
        return [np.stack([self._one((i + 2*j + (j > 0)) % 6) for j in range(self.k)]) for i in range(6)] + \
            [np.stack([(1 + j if self.kind == 'hpd' else 1)*self._one(i) for j in range(self.k)]) for i in (6, 7)] + [np.stack([np.real(self._one(8)*(j + 1 if self.kind == 'hpd' else 1)) for j in range(self.k)])]

    # -- tangent vectors ---------------------------------------------------
    def ambient(self):
        """basis of the ambient real space"""
        out = []
        if self.kind == 'spv':
            for i, j in itertools.product(range(self.n), range(self.k)):
                e = np.zeros((self.n, self.k))
                e[i, j] = 1.
                out.append(e)
            return out
        for j in range(self.k):
            for a, b, z in itertools.product(range(self.n), range(self.n), (1, 1j)):
                E = np.zeros((self.k, self.n, self.n), dtype=complex)
                E[j, a, b] = z
                out.append(E[0] if self.k == 1 else E)
        return out

    def basis(self, x):
        """basis of the tangent space at x"""
        if self.kind == 'spv':
            return self.ambient()
        out = []
        for j in range(self.k):
            for H in data.hermitian_basis(self.n, True):
                E = np.zeros((self.k, self.n, self.n), dtype=complex)
                E[j] = H
                out.append(E[0] if self.k == 1 else E)
        if self.kind == 'shpd':
            out = [self.tproj(x, E) for E in out]
            # drop one redundant direction per matrix (the first diagonal one)
            per = self.n**2
            out = [E for i, E in enumerate(out) if i % per]
        return out

    def tproj(self, x, u):
        if self.kind == 'spv':
            return u
        u = herm(u)
        if self.kind == 'shpd':
            t = np.real(trs(np.linalg.solve(x, u)))
            u = u - (t[..., None, None] if self.k > 1 else t)*x/self.n
        return u

    def rough(self, x, i=0):
        """a dense tangent vector of norm of order one"""
        r = np.random.RandomState(11 + i)
        if self.kind == 'spv':
            return x*r.randn(self.n, self.k)/np.sqrt(self.n)
        s = (self.n, self.n) if self.k == 1 else (self.k, self.n, self.n)
        G = r.randn(*s) + 1j*r.randn(*s)
        h = funs(x, np.sqrt)
        return self.tproj(x, h @ herm(G) @ h/self.n)

    # -- membership ----------------------------------------------------------
    def member(self, ctx, x, msg, tol=1e-8):
        want = (self.n, self.k) if self.kind == 'spv' else ((self.n, self.n) if self.k == 1 else (self.k, self.n, self.n))
        ctx.ok(np.shape(x) == want, msg + ': shape', np.shape(x), want)
        ctx.ok(bool(np.all(np.isfinite(x))), msg + ': not finite', x)
        if self.kind == 'spv':
            ctx.ok(np.isrealobj(x) and bool(np.all(x > 0)), msg + ': not positive', x)
            return
        s = np.sqrt(np.abs(np.einsum('...ii->...i', x)))
        ctx.ok(bool(np.all(s > 0)), msg + ': zero diagonal', x)
        c = x/s[..., :, None]/s[..., None, :]
        ctx.near(c, np.conj(np.swapaxes(c, -1, -2)), tol, msg + ': not Hermitian')
        ctx.ok(bool(np.all(np.linalg.eigvalsh(herm(x)) > 0)), msg + ': not positive definite', x)
        if self.kind == 'shpd':
            ctx.near(np.real(np.linalg.slogdet(x)[1]), np.zeros(() if self.k == 1 else self.k), max(tol, 1e-7), msg + ': determinant is not one')

    def tangent(self, ctx, x, u, msg, tol=1e-8):
        ctx.ok(np.shape(u) == np.shape(x), msg + ': shape', np.shape(u))
        ctx.ok(bool(np.all(np.isfinite(u))), msg + ': not finite', u)
        if self.kind == 'spv':
            ctx.ok(np.isrealobj(u), msg + ': complex')
            return
        isq = funs(x, lambda w: w**-.5)
        w = isq @ u @ isq
        size = max(1., np.abs(w).max())
        ctx.near(w, np.conj(np.swapaxes(w, -1, -2)), tol*size, msg + ': not Hermitian')
        if self.kind == 'shpd':
            ctx.near(trs(w), np.zeros(() if self.k == 1 else self.k), tol*size*self.n, msg + ': not trace free at the point')

    # -- reference geometry -----------------------------------------------------
    def inner(self, x, u, v):
        if self.kind == 'spv':
            g = np.sum(u*v/x**2, axis=0)
            return float(g[0]) if self.k == 1 else g
        a, b = np.linalg.solve(x, u), np.linalg.solve(x, v)
        return float(np.sum(np.real(trs(a @ b))))

    def trace(self, x, u):
        """sum over the matrices of products is taken by the caller"""
        return np.real(trs(np.linalg.solve(x, u)))

    def exp(self, x, u):
        if self.kind == 'spv':
            return x*np.exp(u/x)
        h, i = funs(x, np.sqrt), funs(x, lambda w: w**-.5)
        return h @ funs(herm(i @ u @ i), np.exp) @ h

    def log(self, x, y):
        if self.kind == 'spv':
            return x*np.log(y/x)
        h, i = funs(x, np.sqrt), funs(x, lambda w: w**-.5)
        return h @ funs(herm(i @ y @ i), np.log) @ h

    def transp(self, x, y, u):
        if self.kind == 'spv':
            return u*y/x
        h, i = funs(x, np.sqrt), funs(x, lambda w: w**-.5)
        E = h @ funs(herm(i @ y @ i), np.sqrt) @ i
        return E @ u @ np.conj(np.swapaxes(E, -1, -2))

    def retr(self, x, u):
        if self.kind == 'spv':
            return x + u + u**2/x/2
        r = x + u + u @ np.linalg.solve(x, u)/2
        if self.kind == 'shpd':
            d = np.real(np.linalg.det(r))**(1/self.n)
            r = r/(d if self.k == 1 else d[:, None, None])
        return r

    def action(self, x, i):
        """an isometry x -> g(x) of the manifold"""
        if self.kind == 'spv':
            c = (np.array([3., 0.2, 7.])[(np.arange(self.n) + i) % 3])[:, None]
            return lambda y: c*y
        r = np.random.RandomState(i)
        C = r.randn(self.n, self.n) + 1j*r.randn(self.n, self.n) + 1.5*np.eye(self.n)
        if i == 2:
            return np.conj
        if i == 3:
            return np.linalg.inv
        if self.kind == 'shpd':
            C = C/np.abs(np.linalg.det(C))**(1/self.n)
        return lambda y: C @ y @ C.conj().T

    # -- linear structure ----------------------------------------------------------
    @staticmethod
    def add(u, v, a=1., b=1.):
        return a*u + b*v

    def flat(self, u):
        u = np.asarray(u).ravel()
        return np.concatenate([u.real, np.imag(u)]) if self.kind != 'spv' or np.iscomplexobj(u) else u


class Prod:
    """product of leaves with weights; alpha: the Kronecker elliptical manifold"""

    def __init__(self, leaves, weights=None, alpha=None):
        self.leaves = leaves
        self.alpha = alpha
        self.kind, self.k = 'product', leaves[0].k
        self.scalar = True
        if alpha is not None:
            A, B = leaves
            self.M = man.KroneckerHermitianPositiveElliptical(A.n, B.n, alpha, A.k)
            self.weights = (alpha*B.n, alpha*A.n)
            self.name = 'kronecker a=%d b=%d alpha=%g k=%d' % (A.n, B.n, alpha, A.k)
        else:
            self.M = man.WeightedProduct([l.M for l in leaves], weights)
            self.weights = tuple(weights) if weights is not None else (1.,)*len(leaves)
            self.name = 'product of %s weights %s' % (' x '.join(l.name for l in leaves), weights)
        # length up to which moves of the factors stay of order one
        self.reach = np.sqrt(min(self.weights)) if min(self.weights) < 0.1 else 1.
        self.dim = sum(l.dim for l in leaves)
        self.n = max(l.n for l in leaves)

    def points(self):
        ps = [l.points() for l in self.leaves]
        return [[p[(i + 2*j) % len(p)] for j, p in enumerate(ps)] for i in range(4)] + [[p[z[len(p) < 9]] for p in ps] for z in ((6, 4), (7, 5), (8, 1))]

    def _lift(self, lists, zeros):
        out = []
        for j, L in enumerate(lists):
            for e in L:
                out.append([e if i == j else z for i, z in enumerate(zeros)])
        return out

    def ambient(self):
        A = [l.ambient() for l in self.leaves]
        return self._lift(A, [a[0]*0 for a in A])

    def basis(self, x):
        A = [l.basis(y) for l, y in zip(self.leaves, x)]
        return self._lift(A, [np.zeros_like(y) for y in x])

    def rough(self, x, i=0):
        return [l.rough(y, i + j) for j, (l, y) in enumerate(zip(self.leaves, x))]

    def member(self, ctx, x, msg, tol=1e-8):
        ctx.ok(len(x) == len(self.leaves), msg + ': number of components')
        for l, y in zip(self.leaves, x):
            l.member(ctx, y, msg, tol)

    def tangent(self, ctx, x, u, msg, tol=1e-8):
        ctx.ok(len(u) == len(self.leaves), msg + ': number of components')
        for l, y, v in zip(self.leaves, x, u):
            l.tangent(ctx, y, v, msg, tol)

    def inner(self, x, u, v):
        if self.alpha is None:
            return float(sum(w*np.sum(l.inner(a, b, c)) for w, l, a, b, c in zip(self.weights, self.leaves, x, u, v)))
        # Fisher metric of the elliptical law at A kron B, from its definition on the large matrix
        tot = 0.
        st = lambda z, l: z[None] if l.k == 1 else z
        (A, B), (p, q), (r, s) = [[st(z, l) for z, l in zip(t, self.leaves)] for t in (x, u, v)]
        for a, b, da, db, ea, eb in zip(A, B, p, q, r, s):
            M = np.kron(a, b)
            X = np.linalg.solve(M, np.kron(da, b) + np.kron(a, db))
            Y = np.linalg.solve(M, np.kron(ea, b) + np.kron(a, eb))
            tot += self.alpha*np.real(np.trace(X @ Y)) + (self.alpha - 1)*np.real(np.trace(X)*np.trace(Y))
        return float(tot)

    def each(name):
        def f(self, *args):
            return [getattr(l, name)(*[a[i] for a in args]) for i, l in enumerate(self.leaves)]
        return f
    exp, log, transp, retr, tproj = each('exp'), each('log'), each('transp'), each('retr'), each('tproj')

    def action(self, x, i):
        gs = [l.action(y, i) for l, y in zip(self.leaves, x)]
        return lambda y: [g(z) for g, z in zip(gs, y)]

    def add(self, u, v, a=1., b=1.):
        return [a*p + b*q for p, q in zip(u, v)]

    def flat(self, u):
        return np.concatenate([l.flat(v) for l, v in zip(self.leaves, u)])


def table(tier='quick'):
    L = Leaf
    out = [('spv 1 1', lambda: L('spv', 1)), ('spv 3 1', lambda: L('spv', 3)), ('spv 2 2', lambda: L('spv', 2, 2)), ('spv 3 3', lambda: L('spv', 3, 3)),
           ('hpd 1', lambda: L('hpd', 1)), ('hpd 2', lambda: L('hpd', 2)), ('hpd 3', lambda: L('hpd', 3)), ('hpd 1 2', lambda: L('hpd', 1, 2)),
           ('hpd 2 2', lambda: L('hpd', 2, 2)), ('hpd 3 2', lambda: L('hpd', 3, 2)), ('hpd 2 3', lambda: L('hpd', 2, 3)),
           ('shpd 2', lambda: L('shpd', 2)), ('shpd 3', lambda: L('shpd', 3)), ('shpd 2 2', lambda: L('shpd', 2, 2)), ('shpd 3 2', lambda: L('shpd', 3, 2)),
           ('shpd 2 3', lambda: L('shpd', 2, 3)),
           ('product hpd hpd', lambda: Prod([L('hpd', 2), L('hpd', 3)])),
           ('product weighted', lambda: Prod([L('shpd', 2), L('hpd', 2), L('spv', 3)], (0.5, 2., 3.))),
           ('product decreasing', lambda: Prod([L('hpd', 2), L('spv', 2), L('shpd', 2)], (300., 1., 0.002))),
           ('product four', lambda: Prod([L('hpd', 1), L('spv', 2), L('hpd', 2), L('spv', 1)], (2., 0.5, 1., 0.25))),
           ('product one', lambda: Prod([L('hpd', 2)], (3.,))),
           ('product stacks', lambda: Prod([L('hpd', 2, 2), L('shpd', 3, 2)], (4., 0.25)))]
    for a, b, al, k in ((2, 2, 1., 1), (2, 3, 0.9, 1), (3, 2, 0.95, 1), (2, 1, 1.3, 1), (2, 2, 0.85, 2), (2, 3, 1.2, 3)):
        out.append(('kronecker %d %d %g %d' % (a, b, al, k), lambda a=a, b=b, al=al, k=k: Prod([L('shpd', a, k), L('hpd', b, k)], alpha=al)))
    big = [('spv 20', lambda: L('spv', 20)), ('hpd 6', lambda: L('hpd', 6)), ('shpd 6', lambda: L('shpd', 6)), ('hpd 4 5', lambda: L('hpd', 4, 5)),
           ('hpd 11', lambda: L('hpd', 11)), ('kronecker 4 5 0.97', lambda: Prod([L('shpd', 4), L('hpd', 5)], alpha=0.97))]
    return out, big
