"""C14: the mappings are (real-)linear, so they are evaluated on every basis element and
every pair of basis elements of each size, on every small matrix/vector over a finite
alphabet, on stacks of all of these and on all unsupported shapes."""
import itertools

import numpy as np

from mc import data, ref
from robuststats.models import mappings as mp

BOUNDS = {
    'quick': 'vectors: all of length 1-3 over 7 complex numbers; matrices: all bases and all basis pairs for p=1..3 (sums, products), every Hermitian 2x2 '
             'over an alphabet, random-free dense families for p=1..12, 33, 64; stacks of 1..5, 130, 1001; all shapes with 0-4 axes of 1..3 for rejection; 5 element types; check_Hermitian/check_Symmetric with one entry off by half and twice the tolerance, 7 tolerances x 5 magnitudes x 5 entries',
    'thorough': 'basis pairs up to p=4; stacks of 1..9, 1001; p up to 90',
}
RULE = 'a state is an input (pair)'
A7 = (0, 1, -1, 1j, -2j, 1 + 1j, 0.5 - 3j)


def basis(p, q=None):
    q = q or p
    out = []
    for i in range(p):
        for j in range(q):
            for z in (1, 1j):
                E = np.zeros((p, q), dtype=complex)
                E[i, j] = z
                out.append(E)
    return out


def want_real(A):
    return 0.5*np.vstack([np.hstack([A.real, -A.imag]), np.hstack([A.imag, A.real])])


def vector(ctx, x):
    r = mp.arraytoreal(x)
    w = np.concatenate([x.real, x.imag], axis=-1)
    ctx.ok(np.isrealobj(r) and r.shape == w.shape, 'real equivalent', r)
    ctx.ok(np.array_equal(r, w), 'real equivalent', r, w)
    c = mp.arraytocomplex(r)
    ctx.ok(np.iscomplexobj(c) and c.shape == x.shape and np.array_equal(c, x), 'back to complex', c, x)
    ctx.ok(np.array_equal(mp.arraytoreal(mp.arraytocomplex(w)), w), 'back to real')
    ctx.ok(np.array_equal(mp.arraytoreal(w), w) and mp.arraytoreal(w).dtype == w.dtype, 'real input changed')
    z = mp.arraytocomplex(x)
    ctx.ok(np.array_equal(z, x) and z.shape == x.shape, 'complex input changed')
    ctx.step(5)
    ctx.see(r)


def matrix(ctx, A, spd=False):
    p = len(A)
    r = mp.covariancetoreal(A)
    ctx.ok(np.isrealobj(r) and r.shape == (2*p, 2*p), 'real equivalent', r)
    ctx.close(r, want_real(A), 1e-14, 'real equivalent')
    c = mp.covariancetocomplex(r)
    ctx.ok(np.iscomplexobj(c) and c.shape == A.shape, 'back to complex', c)
    ctx.close(c, A, 1e-14, 'back to complex')
    ctx.close(mp.covariancetoreal(c), r, 1e-14, 'and to real again')
    ctx.ok(np.array_equal(mp.covariancetoreal(r), r), 'real input changed')
    ctx.ok(np.array_equal(mp.covariancetocomplex(A), A), 'complex input changed')
    if np.array_equal(A, A.conj().T):
        ctx.ok(np.array_equal(r, r.T), 'not symmetric', r)
        w = np.linalg.eigvalsh(A)
        ctx.near(np.linalg.eigvalsh(r), np.sort(np.repeat(w/2, 2)), 1e-10*max(1, abs(w).max()), 'eigenvalues')
    for H, name in ((A, 'it'), (A + A.conj().T, 'Hermitian part'), (A - A.conj().T, 'skew part')):
        hm = np.array_equal(H, H.conj().T)
        sy = np.array_equal(H, H.T)
        if hm or np.abs(H - H.conj().T).max() > 1e-2:
            ctx.ok(bool(mp.check_Hermitian(H)) == hm, 'check_Hermitian of %s' % name, H)
        if sy or np.abs(H - H.T).max() > 1e-2:
            ctx.ok(bool(mp.check_Symmetric(H)) == sy, 'check_Symmetric of %s' % name, H)
    ctx.ok(mp.iscovariance(A) and mp.iscovariance(r), 'iscovariance')
    ctx.step(8)
    ctx.see(r)


def stack(ctx, S):
    r = mp.covariancestoreal(S)
    w = np.array([want_real(A) for A in S])
    ctx.ok(np.isrealobj(r) and r.shape == w.shape, 'shape of the stack', r.shape)
    ctx.close(r, w, 1e-14, 'real stack')
    c = mp.covariancestocomplex(r)
    ctx.ok(np.iscomplexobj(c) and c.shape == S.shape, 'complex stack', c.shape)
    ctx.close(c, S, 1e-14, 'stack back to complex')
    ctx.ok(np.array_equal(mp.covariancestoreal(r), r), 'real stack changed')
    ctx.ok(np.array_equal(mp.covariancestocomplex(S), S), 'complex stack changed')
    for A, B, C in zip(S, r, c):
        ctx.close(B, mp.covariancetoreal(A), 1e-14, 'stack and single differ')
        ctx.close(C, mp.covariancetocomplex(B), 1e-14, 'stack and single differ')
    ctx.step(4)


def pair(ctx, A, B, a, b):
    R = mp.covariancetoreal
    ctx.close(R(a*A + b*B), a*R(A) + b*R(B), 1e-13, 'linear')
    ctx.close(R(A @ B), 2*R(A) @ R(B), 1e-13, 'products')
    ctx.close(R(A.conj().T), R(A).T, 1e-13, 'adjoints')
    ctx.step(6)


def forms(ctx, S, X):
    """quadratic forms and covariances"""
    R, V = mp.covariancetoreal(S), mp.arraytoreal(X)
    ctx.ok(np.allclose(R, R.T), 'not symmetric')
    ctx.ok(np.linalg.eigvalsh(R).min() > 0, 'not positive definite')
    ctx.close(np.einsum('ni,ij,nj->n', V, R, V), ref_quad(np.linalg.inv(S), X)/2, 1e-9, 'quadratic form')
    ctx.close(np.einsum('ni,ij,nj->n', V, np.linalg.inv(R), V), 2*ref_quad(S, X), 1e-8, 'inverse quadratic form')
    Y = np.vstack([X, 1j*X])       # circular data: zero pseudo-covariance
    ctx.close(ref.scm(mp.arraytoreal(Y)), mp.covariancetoreal(ref.scm(Y)), 1e-12, 'covariance of the mapped data')
    A = np.linalg.cholesky(S)
    ctx.close(mp.arraytoreal(X @ A.T), V @ (2*mp.covariancetoreal(A)).T, 1e-12, 'linear maps of data')
    ctx.close(mp.covariancetoreal(A @ A.conj().T), 2*mp.covariancetoreal(A) @ mp.covariancetoreal(A).T, 1e-12, 'congruence')
    for i in range(min(3, len(X))):
        ctx.ok(np.array_equal(mp.arraytoreal(X[i]), V[i]), 'one observation and many differ')
        ctx.ok(np.array_equal(mp.arraytocomplex(V[i]), mp.arraytocomplex(V)[i]), 'one observation and many differ')
    ctx.step(8)


def ref_quad(S, X):
    return np.real(np.einsum('ni,ni->n', X.conj(), np.linalg.solve(S, X.T).T))


def reject(ctx, shape, cplx):
    a = np.ones(shape) + (1j if cplx else 0)
    bad = []
    n = len(shape)
    if cplx:
        if n not in (1, 2):
            bad.append(mp.arraytoreal)
        if n != 2 or shape[0] != shape[1]:
            bad.append(mp.covariancetoreal)
        if n != 3 or shape[1] != shape[2]:
            bad.append(mp.covariancestoreal)
    else:
        if n not in (1, 2) or shape[-1] % 2:
            bad.append(mp.arraytocomplex)
        if n != 2 or shape[0] != shape[1] or shape[0] % 2:
            bad.append(mp.covariancetocomplex)
        if n != 3 or shape[1] != shape[2] or shape[1] % 2:
            bad.append(mp.covariancestocomplex)
    for f in bad:
        ctx.raises(lambda: f(a), '%s of shape %s' % (f.__name__, shape))
        ctx.step()
    if n >= 1:
        ctx.ok(bool(mp.iscovariance(a)) == (n == 2 and shape[0] == shape[1]), 'iscovariance of shape %s' % (shape,))
    # the other kind passes
    for f in ((mp.arraytocomplex, mp.covariancetocomplex, mp.covariancestocomplex) if cplx else (mp.arraytoreal, mp.covariancetoreal, mp.covariancestoreal)):
        r = f(a)
        ctx.ok(r.shape == a.shape and np.array_equal(r, a), '%s changed an input of its target kind' % f.__name__)


def types(ctx, dt, x, S):
    x, S = x.astype(dt), S.astype(dt)
    r, R = mp.arraytoreal(x), mp.covariancetoreal(S)
    ctx.close(np.asarray(r, float), np.concatenate([x.real, x.imag], -1).astype(float), 1e-14, 'values')
    ctx.close(np.asarray(R, float), want_real(S).astype(float), 1e-6, 'values')
    for d in (float, np.float32, int):
        w = np.round(np.asarray(r, float)*4).astype(d)
        c = mp.arraytocomplex(w)
        ctx.close(c, x*0 + (w[..., :x.shape[-1]] + 1j*w[..., x.shape[-1]:]), 1e-14, 'from %s' % np.dtype(d))
        W = np.round(np.asarray(R, float)*4).astype(d)
        p = len(S)
        ctx.close(mp.covariancetocomplex(W), 2.*W[:p, :p] + 2j*W[p:, :p], 1e-14, 'matrix from %s' % np.dtype(d))
    ctx.step(8)


def tolerance(ctx, f, herm, rtol, atol, base, where, phase):
    """one entry off by half or twice what the tolerances allow"""
    i, j = where
    n = max(i, j) + 1
    H = base*(np.ones((n, n)) + np.eye(n)) + (1j*base*(np.triu(np.ones((n, n)), 1) - np.tril(np.ones((n, n)), -1)) if herm else 0)
    H = H.astype(complex)
    kw = {} if rtol is None else dict(rtol=rtol, atol=atol)
    r, a = (1e-5, 1e-8) if rtol is None else (rtol, atol)
    allowed = a + r*abs(H[i, j])
    for factor, want in ((0.5, True), (2., False)):
        if i == j and (not herm or phase == 1):
            continue
        G = H.copy()
        d = factor*allowed*phase
        G[i, j] += d/2 if i == j else d
        if allowed == 0 or allowed*factor < 1e-13*abs(H[i, j]):
            continue
        ctx.ok(bool(f(G, **kw)) == want, '%s of a matrix off by %g of what %s allows' % (f.__name__, factor, kw), G)
        if kw:
            ctx.ok(bool(f(G, r, a)) == want, '%s with positional tolerances' % f.__name__, G)
        if not herm and phase == 1:
            ctx.ok(bool(f(G.real, **kw)) == want, '%s of a real matrix' % f.__name__, G)
        ctx.step()
    ctx.ok(bool(f(H, **kw)), '%s of an exact matrix' % f.__name__)


def plan(tier):
    th = tier == 'thorough'
    units = [('vectors', p) for p in (1, 2, 3)] + [('small', lo) for lo in range(5)]
    units += [('pairs', p, lo) for p in ((1, 2, 3) if not th else (1, 2, 3, 4)) for lo in range(4)]
    units += [('grid', p) for p in list(range(1, 13)) + [33, 64] + ([20, 90] if th else [])]
    units += [('stacks', n) for n in ((1, 2, 3, 4, 5, 130, 1001) if not th else (1, 2, 3, 4, 5, 6, 7, 8, 9, 130, 1001))]
    units += [('reject', c) for c in (False, True)] + [('types',), ('tolerance',)]
    return units


def run_unit(ctx, what, *u):
    if what == 'vectors':
        p, = u
        for v in itertools.product(A7, repeat=p):
            x = np.array(v, dtype=complex)
            ctx.run('vector %s' % (v,), vector, ctx, x)
        for n in (1, 2, 3):
            for v in itertools.product(A7, repeat=min(n*p, 3)):
                x = np.resize(np.array(v, dtype=complex), (n, p))
                ctx.run('data %s' % (x.tolist(),), vector, ctx, x)
    elif what == 'small':
        for d in itertools.product((0.5, 1, 3, -1, 0), repeat=2):
            for b in A7:
                if [0.5, 1, 3, -1, 0][u[0]] != d[0]:
                    continue
                H = np.array([[d[0], b], [np.conj(b), d[1]]], dtype=complex)
                ctx.run('Hermitian %s' % H.tolist(), matrix, ctx, H)
                K = H.copy()
                K[1, 0] = b + 2
                ctx.run('general %s' % K.tolist(), matrix, ctx, K)
                if np.linalg.eigvalsh(H).min() > 0.05:
                    ctx.run('forms %s' % H.tolist(), forms, ctx, H, np.array(list(itertools.product(A7[1:5], repeat=2))))
    elif what == 'pairs':
        p, lo = u
        B = basis(p)
        for i, E in enumerate(B):
            if i % 4 != lo:
                continue
            ctx.run('basis %d of %d' % (i, p), matrix, ctx, E)
            for j, F in enumerate(B):
                ctx.run('basis pair %d %d of %d' % (i, j, p), pair, ctx, E, F, 2., -0.5)
                ctx.run('pair %d %d of %d' % (i, j, p), pair, ctx, E + data.spd(p, True, 'dense'), F - np.eye(p), -1., 3.)
    elif what == 'grid':
        p, = u
        for s in range(3):
            S = data.gauss(3*p, p, True, s)
            S = S.T @ S.conj()/p + 0.2*np.eye(p)
            S = (S + S.conj().T)/2
            X = data.gauss((5, 2*p + 3, 150)[s], p, True, s)
            ctx.run('matrix %d %d' % (p, s), matrix, ctx, S)
            ctx.run('forms %d %d' % (p, s), forms, ctx, S, X)
            ctx.run('data %d %d' % (p, s), vector, ctx, X)
            ctx.run('vector %d %d' % (p, s), vector, ctx, X[0])
            ctx.run('pair %d %d' % (p, s), pair, ctx, S, data.gauss(p, p, True, s + 5), 0.7, 1.3)
            ctx.run('Fortran order %d %d' % (p, s), matrix, ctx, np.asfortranarray(S))
            ctx.run('view %d %d' % (p, s), vector, ctx, np.ascontiguousarray(np.vstack([X, X]))[::-2])
            ctx.run('scaled %d %d' % (p, s), matrix, ctx, S*10.**(6*s - 6))
    elif what == 'stacks':
        n, = u
        for p in (1, 2, 3, 5) if n < 100 else (2,):
            S = np.stack([data.spd(p, True, 'dense')*(i + 1) + i*np.diag(np.arange(p)) for i in range(n)]).astype(complex)
            ctx.run('stack %d %d' % (n, p), stack, ctx, S)
            G = np.stack([data.gauss(p, p, True, i) for i in range(n)])
            ctx.run('stack of general matrices %d %d' % (n, p), stack, ctx, G)
            ctx.run('strided stack %d %d' % (n, p), stack, ctx, np.concatenate([G, G])[::2])
        if n <= 2:
            B = basis(2)
            for c in itertools.product(range(len(B)), repeat=n):
                ctx.run('stack of basis %s' % (c,), stack, ctx, np.stack([B[i] for i in c]))
    elif what == 'reject':
        for n in range(0, 5):
            for shape in itertools.product((1, 2, 3, 4) if n <= 3 else (1, 2), repeat=n):
                ctx.run('shape %s complex=%s' % (shape, u[0]), reject, ctx, shape, u[0])
        for shape in ((7, 5), (5,), (100, 99), (6, 11, 11), (2, 5, 5), (9, 9), (4, 6), (3, 4, 6), (3, 6, 4)):
            ctx.run('shape %s complex=%s' % (shape, u[0]), reject, ctx, shape, u[0])
    elif what == 'tolerance':
        for f, herm in ((mp.check_Hermitian, True), (mp.check_Symmetric, False)):
            for tol in ((None, None), (1e-5, 0.), (0., 1e-8), (1e-2, 1e-8), (0., 1e-3), (1e-9, 1e-12), (0., 1.)):
                for base in (0., 1e-6, 1., 1e4, 1e9):
                    for where in ((0, 1), (1, 0), (0, 2), (2, 1), (1, 1)):
                        for phase in (1, 1j):
                            ctx.run('%s tolerances %s size %g entry %s phase %s' % (f.__name__, tol, base, where, phase), tolerance, ctx, f, herm,
                                    tol[0], tol[1], base, where, phase)
    else:
        for dt in (complex, np.complex64):
            for p in (1, 2, 4):
                ctx.run('type %s %d' % (np.dtype(dt), p), types, ctx, dt, data.gauss(5, p, True, 1), data.spd(p, True, 'dense'))
