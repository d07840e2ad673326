"""C22: the costs on every data set x matrix pair of the alphabets and grids against the
defining formula, its invariances, and the analytic gradient; derivatives are compared in
every direction of a basis of the symmetric (Hermitian) matrices."""
import itertools
import logging

import autograd
import numpy as np

from mc import data, ref
from robuststats.models import cost as C

BOUNDS = {
    'quick': 'all multisets of observations (real/complex, p=1: N<=3, p=2: N<=3, p=3: N=5 chunked) x 5 matrices x 2 backends; sizes (p,N) up to (70, 150), (3, 2100) x 7 data families; '
             'gradient in all symmetric/Hermitian directions (p<=7); determinants outside the floating-point range; all shape mismatches up to 4',
    'thorough': 'as quick with one more observation and all basis directions up to p=12',
}
RULE = 'a case is (data set, matrix, backend)'
MATS = ['eye', 'diag', 'dense', 'another', 'small']
GRID = [(1, 1), (2, 1), (2, 6), (3, 2), (4, 30), (7, 9), (12, 40), (17, 20), (40, 60), (3, 2100), (70, 150)]


def f(cplx):
    return C.Tyler_cost_complex if cplx else C.Tyler_cost_real


def value(ctx, X, Q):
    cplx = np.iscomplexobj(X)
    p = X.shape[1]
    want = ref.tyler_cost(X, Q)
    size = p*np.sum(np.abs(np.log(ref.quad(Q, X)))) + len(X)*np.sum(np.abs(np.log(np.linalg.eigvalsh(Q)))) + 1
    for ag in (False, True):
        got = f(cplx)(X, Q, ag)
        ctx.step()
        ctx.ok(np.ndim(got) == 0 and np.isrealobj(got), 'cost is not a real number', got)
        ctx.near(got, want, 1e-9*size, 'Tyler cost (autograd=%s)' % ag)
        for c in (3., 1e-3, 1e4):
            ctx.near(f(cplx)(X, c*Q, ag), want, 1e-8*size, 'the cost depends on the scale of the matrix')
            ctx.step()
    ctx.near(f(cplx)(X, Q), want, 1e-9*size, 'Tyler cost with the default backend')
    if not cplx:
        for ag in (False, True):
            ctx.near(C.Tyler_cost_complex(X.astype(complex), Q.astype(complex), ag), want, 1e-9*size, 'complex cost of real data')
            ctx.step()
    ctx.see(want)
    return want, size


def invariances(ctx, X, Q):
    want, size = value(ctx, X, Q)
    cplx = np.iscomplexobj(X)
    N, p = X.shape
    w = np.array([2., -0.5, 3., 100., 1e-2])[np.arange(N) % 5]*(np.exp(1j*np.arange(N)) if cplx else 1)
    ctx.near(f(cplx)(X*w[:, None], Q), want + 2*p*np.sum(np.log(np.abs(w))), 1e-8*size*10, 'rescaled observations')
    T = np.eye(p) + np.tril(0.5*np.ones((p, p)), -1) + (0.3j*np.triu(np.ones((p, p)), 1) if cplx else 0)
    if np.linalg.cond(T) < 1e6:
        for ag in (False, True):
            got = f(cplx)(X @ T.T, T @ Q @ T.conj().T, ag)
            ctx.near(got, want + 2*N*np.linalg.slogdet(T)[1], 1e-6*size*10, 'congruence of data and matrix')
    ctx.near(f(cplx)(X[::-1], Q), want, 1e-8*size, 'order of the observations')
    ctx.near(f(cplx)(np.concatenate([X, X]), Q), 2*want, 1e-8*size*2, 'duplicated observations')
    if cplx:
        ctx.near(f(cplx)(X.conj(), Q.conj()), want, 1e-8*size, 'conjugation')
    for name, Y in data.layouts(X):
        if name != 'reversed':
            ctx.near(f(cplx)(Y, np.asfortranarray(Q)), want, 1e-9*size, '%s layout' % name)
    ctx.step(9)


def gradient(ctx, X, Q, full):
    cplx = np.iscomplexobj(X)
    N, p = X.shape
    q = ref.quad(Q, X)
    iQ = np.linalg.inv(Q)
    Y = X @ iQ.T
    G = autograd.grad(lambda Q: f(cplx)(X, Q, True))(Q)
    ctx.step()
    ctx.ok(np.shape(G) == (p, p) and np.iscomplexobj(G) == cplx, 'gradient of the wrong kind', G)
    h = ref.funm(Q, np.sqrt)
    Hs = data.hermitian_basis(p, cplx) if full else [data.spd(p, cplx, 'further!'), np.diag(np.linspace(-1, 1, p)).astype(Q.dtype), np.ones((p, p), Q.dtype)]
    for n, H in enumerate(Hs):
        d = h @ H @ h/np.linalg.norm(H)
        want = -p*np.sum(np.real(np.sum(Y.conj() @ d * Y, axis=1))/q) + N*np.real(np.trace(iQ @ d))
        got = np.real(np.sum(G*d))
        ctx.near(got, want, 1e-7*N*p, 'derivative in direction %d' % n)
    ctx.see(G)


def minimal(ctx, X):
    """the cost at Tyler's estimate is below the cost of its neighbours and of other matrices"""
    cplx = np.iscomplexobj(X)
    N, p = X.shape
    S = ref.solve('tyler', None, X)
    if S is None or np.linalg.cond(S) > 1e6:
        ctx.notes['too_slow'] = ctx.notes.get('too_slow', 0) + 1
        return
    S = ref.trace_norm(S)
    h = ref.funm(S, np.sqrt)
    c0 = f(cplx)(X, S)
    for H in data.hermitian_basis(p, cplx):
        for t in (1e-3, -1e-3, 0.3, -0.3, 2., -2.):
            E = ref.funm(t*H, np.exp)
            c = f(cplx)(X, h @ E @ h)
            ctx.ok(c >= c0 - 1e-9*(1 + abs(c0)), 'a matrix near Tyler\'s estimate has a smaller cost', c, c0)
            ctx.step()
    for m in MATS:
        ctx.ok(f(cplx)(X, data.spd(p, cplx, m)) >= c0 - 1e-9*(1 + abs(c0)), 'another matrix has a smaller cost')
    G = autograd.grad(lambda Q: f(cplx)(X, Q, True))(S)
    ctx.near(h.conj() @ G @ h.conj(), np.zeros((p, p)), 1e-5*N*p, 'gradient at Tyler\'s estimate')
    ctx.trace()


def mismatch(ctx, cplx, N, p, q):
    dt = complex if cplx else float
    X = data.gauss(N, p, cplx)
    for ag in (False, True):
        logging.disable(logging.CRITICAL)
        try:
            ctx.raises(lambda: f(cplx)(X, np.eye(q, dtype=dt), ag), 'matrix of size %d for data of dimension %d' % (q, p))
            ctx.raises(lambda: f(cplx)(X, np.ones((q, p), dtype=dt), ag), 'rectangular matrix')
            ctx.raises(lambda: f(cplx)(X, np.ones((p, q), dtype=dt), ag), 'rectangular matrix')
        finally:
            logging.disable(logging.NOTSET)
        ctx.step()


def extreme(ctx, cplx, p, s):
    dt = complex if cplx else float
    X = data.gauss(2*p, p, cplx)
    Q = data.spd(p, cplx, 'diag')
    want = ref.tyler_cost(X, Q)
    for ag in (False, True):
        ctx.near(f(cplx)(X, s*Q, ag), want, 1e-7*abs(want), 'determinant out of range')
        ctx.step()
    G = autograd.grad(lambda Q: f(cplx)(X, Q, True))(s*Q)
    G0 = autograd.grad(lambda Q: f(cplx)(X, Q, True))(Q)
    ctx.close(s*G, G0, 1e-6, 'gradient with a determinant out of range')


def plan(tier):
    th = tier == 'thorough'
    out = []
    for cplx in (False, True):
        for p, Ns in ((1, (1, 2, 3)), (2, (1, 2, 3) + ((4,) if th else ())), (3, (2, 5) if not th else (2, 5, 6))):
            for N in Ns:
                n = len(list(itertools.combinations_with_replacement(range(len(data.alphabet(p, cplx))), N)))
                if N == 5 and not th:
                    n = len(data.multisets(p, cplx, N))
                out += [('alpha', cplx, p, N, lo, hi) for lo, hi in data.chunks(n, 40)]
        for p, N in GRID:
            for fam in ('gauss', 'corr', 'heavy', 'scaled', 'small', 'big', 'tiny'):
                out.append(('grid', cplx, p, N, fam))
        out.append(('mismatch', cplx))
        for p in (2, 50, 110):
            out.append(('extreme', cplx, p))
    return out


def run_unit(ctx, what, cplx, *u):
    tag = 'complex' if cplx else 'real'
    if what == 'alpha':
        p, N, lo, hi = u
        A = data.alphabet(p, cplx)
        if N == 5 and not ctx.thorough:
            sets = data.multisets(p, cplx, N)
        else:
            sets = [(''.join(map(str, i)), np.array([A[j] for j in i])) for i in itertools.combinations_with_replacement(range(len(A)), N)]
        for name, X in sets[lo:hi]:
            for m in MATS:
                Q = data.spd(p, cplx, m)
                ctx.run('%s p%d #%s at %s' % (tag, p, name, m), value, ctx, X, Q, X=X)
                if m != 'another':
                    ctx.run('%s p%d #%s gradient at %s' % (tag, p, name, m), gradient, ctx, X, Q, True, X=X)
            if data.tyler_exists(X):
                ctx.run('%s p%d #%s minimum' % (tag, p, name), minimal, ctx, X, X=X)
    elif what == 'grid':
        p, N, fam = u
        X = data.gauss(N, p, cplx, 0, fam)
        for m in MATS:
            Q = data.spd(p, cplx, m)
            ctx.run('%s p%d N%d %s at %s' % (tag, p, N, fam, m), invariances, ctx, X, Q, X=X)
            ctx.run('%s p%d N%d %s gradient at %s' % (tag, p, N, fam, m), gradient, ctx, X, Q, p <= (12 if ctx.thorough else 7), X=X)
        if N > p and p <= 12:
            ctx.run('%s p%d N%d %s minimum' % (tag, p, N, fam), minimal, ctx, X, X=X)
    elif what == 'mismatch':
        for N, p, q in itertools.product((1, 3), range(1, 5), range(1, 5)):
            if p != q:
                ctx.run('%s N=%d p=%d matrix %d' % (tag, N, p, q), mismatch, ctx, cplx, N, p, q)
    else:
        for s in (1e-9, 1e-3, 1e3, 1e9):
            ctx.run('%s p=%d matrix scaled by %g' % (tag, u[0], s), extreme, ctx, cplx, u[0], s)
