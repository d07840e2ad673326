"""C17: depth-first search over all words of manifold operations up to a depth, from
several points of every manifold; after every operation the reached point and the carried
vector are tested for membership and tangency.  Projections are decided on bases."""
import itertools

import numpy as np

from mc import mani
from mc.c18 import forced, PATTERNS

BOUNDS = {
    'quick': '28 manifolds (n up to 3, k up to 3; products; Kronecker elliptical) x 2 points x all words of length <= 3 over 11 operations; '
             'projection on all ambient and tangent basis vectors at 6-9 points (scales from 1e-7 to 1e7, real element type); single moves of length up to 6; 6 larger manifolds (up to 20 / 11x11) with words of length <= 2; '
             'random points under forced extreme draws',
    'thorough': 'words of length <= 4 from 4 points (3 on the larger manifolds)',
}
RULE = 'a state is (manifold, point, carried tangent vector) reached by a word of operations'


def unit(L, x, u):
    n = np.sqrt(float(np.sum(L.inner(x, u, u))))
    return L.add(u, u, L.reach/n, 0.) if n > 1e-12 else L.rough(x, 5)


def extrinsic(L, x, i):
    """a dense ambient vector (not tangent)"""
    r = np.random.RandomState(40 + i)

    def leaf(l, y):
        if l.kind == 'spv':
            return r.randn(*y.shape)
        return r.randn(*y.shape) + 1j*r.randn(*y.shape)
    return [leaf(l, y) for l, y in zip(L.leaves, x)] if isinstance(L, mani.Prod) else leaf(L, x)


def vectors(L):
    """operations changing the carried vector"""
    anchors = L.points()
    M = L.M
    return [('log0', lambda x, u: M.log(x, anchors[1])),
            ('log1', lambda x, u: M.log(x, anchors[2])),
            ('proj0', lambda x, u: M.proj(x, extrinsic(L, x, 0))),
            ('proj1', lambda x, u: M.proj(x, extrinsic(L, x, 1))),
            ('rgrad', lambda x, u: M.egrad2rgrad(x, extrinsic(L, x, 2))),
            ('randvec', lambda x, u: M.randvec(x))]


def moves(L):
    M = L.M

    def mv(f, s):
        def g(x, u):
            y = f(x, L.add(u, u, s, 0.))
            return y, M.transp(x, y, u)
        return g

    def rand(x, u):
        y = M.rand()
        return y, M.proj(y, u)
    return [('exp0.7', mv(M.exp, 0.7)), ('exp-1.5', mv(M.exp, -1.5)), ('retr0.7', mv(M.retr, 0.7)), ('retr-1.5', mv(M.retr, -1.5)), ('rand', rand)]


def walk(ctx, L, x, u, depth, word, V, P):
    """all continuations of a state"""
    if depth == 0:
        return
    ops = V if word and word[-1] in ('rand',) else V + P
    for name, f in ops:
        msg = ' '.join(word + (name,))
        if any(name == n for n, _ in V):
            y, v = x, f(x, u)
        else:
            y, v = f(x, u)
            L.member(ctx, y, 'point after ' + msg)
        ctx.step()
        L.tangent(ctx, y, v, 'vector after ' + msg, 1e-6)
        ctx.states += 1
        walk(ctx, L, y, unit(L, y, v), depth - 1, word + (name,), V, P)
    if depth == 1:
        ctx.see(L.flat(x))


def start(ctx, L, x, depth, first):
    V, P = vectors(L), moves(L)
    name, f = (V + P)[first]
    u = unit(L, x, L.rough(x, 0))
    if first < len(V):
        y, v = x, f(x, u)
    else:
        y, v = f(x, u)
    ctx.step()
    L.member(ctx, y, 'point after ' + name)
    L.tangent(ctx, y, v, 'vector after ' + name, 1e-6)
    walk(ctx, L, y, unit(L, y, v), depth - 1, (name,), V, P)
    ctx.trace()


def projection(ctx, L, x, full):
    M = L.M
    amb = L.ambient() if full else [extrinsic(L, x, i) for i in range(6)]
    rows = []
    for i, e in enumerate(amb):
        p = M.proj(x, e)
        L.tangent(ctx, x, p, 'projection of ambient direction %d' % i)
        size = np.linalg.norm(L.flat(p)) + 1e-3*np.linalg.norm(L.flat(e))
        ctx.near(L.flat(M.proj(x, p)), L.flat(p), 1e-9*size, 'projection is not idempotent, direction %d' % i)
        rows.append(L.flat(p))
        j = (i + 1) % len(amb)
        s = L.add(e, amb[j], 2., -3.)
        q = M.proj(x, amb[j])
        ctx.near(L.flat(M.proj(x, s)), L.flat(L.add(p, q, 2., -3.)), 1e-8*(size + np.linalg.norm(L.flat(q))), 'projection is not linear, direction %d' % i)
        ctx.step(4)
    for i, b in enumerate((L.basis(x) if full else []) + [L.rough(x, j) for j in range(3)]):
        ctx.near(L.flat(M.proj(x, b)), L.flat(b), 1e-9*np.linalg.norm(L.flat(b)), 'projection moves tangent vector %d' % i)
        ctx.step()
    z = M.zerovec(x)
    ctx.near(L.flat(z), 0*L.flat(L.rough(x, 0)), 0., 'zero vector')
    ctx.ok(int(M.dim) == L.dim, 'dimension', M.dim, L.dim)
    if full:
        sc = np.array([np.linalg.norm(r) for r in rows])
        R = np.array(rows)[sc > 1e-9*sc.max()]
        R = R/np.linalg.norm(R, axis=1)[:, None]
        w = np.linalg.svd(R, compute_uv=False)
        ctx.ok(int(np.sum(w > 1e-6*w[0])) == L.dim, 'rank of the projection is not the dimension', w)
    ctx.see(np.array(rows))


def single(ctx, L, x, i, s):
    u = unit(L, x, L.rough(x, i))
    v = L.add(u, u, s, 0.)
    for f in (L.M.exp, L.M.retr):
        y = f(x, v)
        L.member(ctx, y, 'move of length %g' % s, 1e-6)
        t = L.M.transp(x, y, u)
        L.tangent(ctx, y, t, 'transport by %g' % s, 1e-5)
        L.tangent(ctx, x, L.M.log(x, y), 'logarithm back', 1e-6)
        ctx.step(3)


class uniforms(forced):
    def __enter__(self):
        super().__enter__()
        self.old2 = np.random.rand, np.random.uniform
        np.random.rand = lambda *s: self.unif(s)
        np.random.uniform = lambda low=0., high=1., size=None: low + (high - low)*self.unif(() if size is None else size if np.ndim(size) else (size,))

    def unif(self, s):
        k = np.arange(int(np.prod(s)))
        u = np.array(self.uni)[k % len(self.uni)]
        return u.reshape(s) if s else float(u[0])

    def __exit__(self, *a):
        np.random.rand, np.random.uniform = self.old2
        super().__exit__(*a)


UNIFORM = [(0.,), (1 - 1e-16,), (0., 1 - 1e-16), (0.25, 0.9, 0., 0.5)]


def rand(ctx, L, how):
    if isinstance(how, int):
        np.random.seed(how)
        x = L.M.rand()
        L.member(ctx, x, 'random point')
    else:
        f = uniforms(how[0])
        f.uni = how[1]
        with f:
            x = L.M.rand()
        L.member(ctx, x, 'random point')
        if isinstance(L, mani.Leaf) and L.kind != 'spv':
            L.tangent(ctx, x, L.M.proj(x, extrinsic(L, x, 1)), 'projection at a random point')
    ctx.step()
    ctx.see(L.flat(x))


NOPS = 11


def plan(tier):
    small, big = mani.table(tier)
    out = []
    for i in range(len(small)):
        for pt in range(2 if tier == 'quick' else 4):
            for op in range(NOPS):
                out.append(('walk', i, True, pt, op, 3 if tier == 'quick' else 4))
        out.append(('projection', i, True, 0, 0, 0))
        out.append(('single', i, True, 0, 0, 0))
    for i in range(len(big)):
        for op in range(NOPS):
            out.append(('walk', i, False, 1, op, 2 if tier == 'quick' else 3))
        out.append(('projection', i, False, 0, 0, 0))
        out.append(('single', i, False, 0, 0, 0))
    return out


def run_unit(ctx, what, i, full, pt, op, depth):
    L = mani.table(ctx.tier)[0 if full else 1][i][1]()
    pts = L.points()
    if what == 'walk':
        pt = (1, 4, 0, 2)[pt] % len(pts)
        ctx.run('%s from point %d all words of length %d starting with operation %d' % (L.name, pt, depth, op), start, ctx, L, pts[pt], depth, op)
    elif what == 'projection':
        for a, x in enumerate(pts):
            ctx.run('%s projection at point %d' % (L.name, a), projection, ctx, L, x, full)
    else:
        for a, x in enumerate(pts):
            for j, s in itertools.product(range(3), (1e-4, 1., 3., -3., 6., -6.)):
                ctx.run('%s point %d direction %d length %g' % (L.name, a, j, s), single, ctx, L, x, j, s)
        for how in list(range(6)) + list(itertools.product(PATTERNS, UNIFORM)):
            ctx.run('%s random point %s' % (L.name, how), rand, ctx, L, how)
