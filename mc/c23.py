"""C23: matrix functions on an alphabet of Hermitian positive definite matrices (all
spectra from a finite set x bases of eigenvectors), vectorisations on labelled matrices of
every size, compared with reference definitions and with each other on both backends."""
import itertools

import autograd.numpy as anp
import numpy as np

from mc import data, ref
from robuststats.utils import linalg as L

BOUNDS = {
    'quick': 'all multisets of 5 eigenvalues (repeated ones included) for p<=4 x 3 eigenbases, real and complex, x 2 backends x 22 powers x 10 scales from 1e-60 to 1e60 and diagonal spectra from 1e-300 to 1e300; larger p up to 70; '
             'vectorisations of all sizes up to 12 x 4 element types x 5 layouts; stacks of up to 20; Toeplitz matrices up to p=12 x 9 ratios',
    'thorough': 'as quick with p<=5, 7 eigenvalues and sizes up to 40',
}
RULE = 'a case is one matrix (spectrum, eigenbasis, element type) or vector'
POWERS = [-2, -1, -0.5, 0, 0.5, 1, 2, 0.3, 3, -1.7]
SMALL = [1e-1, 1e-2, -1e-3, 5e-4, 1e-5, -1e-7, 1e-9]
LARGE = [5, 10, 20, -7, 12.5]


def basis(p, which, cplx):
    if which == 0:
        return np.eye(p, dtype=complex if cplx else float)
    r = np.random.RandomState(70 + 10*which + p)
    return np.linalg.qr(r.randn(p, p) + (1j*r.randn(p, p) if cplx else 0))[0]


def matrix(w, V):
    S = (V*np.asarray(w)) @ V.conj().T
    return (S + S.conj().T)/2


def herm(ctx, T, S, msg):
    ctx.ok(np.shape(T) == np.shape(S), msg + ': shape', np.shape(T))
    ctx.ok(np.iscomplexobj(T) == np.iscomplexobj(S), msg + ': element type', np.asarray(T).dtype)
    ctx.near(T, np.conj(T).T, 1e-10*np.abs(T).max(), msg + ': not Hermitian')


def functions(ctx, w, V):
    p = len(w)
    w = np.asarray(w, dtype=float)
    S = matrix(w, V)
    cond = max(w)/min(w)
    I = np.eye(p)
    for ag in (False, True):
        kw = dict(autograd=True) if ag else {}
        tests = [('sqrtm', L.sqrtm(S, **kw), w**.5), ('invsqrtm', L.invsqrtm(S, **kw), w**-.5), ('logm', L.logm(S, **kw), np.log(w)), ('expm', L.expm(S, **kw), np.exp(w))]
        tests += [('powm %g' % a, L.powm(S, a, **kw), w**a) for a in POWERS]
        for a in SMALL:      # near the identity only the difference tells
            ctx.near((L.powm(S, a, **kw) - I)/a, matrix(np.expm1(a*np.log(w))/a, V), 1e-10*cond*(1 + np.abs(np.log(w)).max()) + 1e-14*p*cond/abs(a), 'power %g' % a)
        for a in LARGE:
            ctx.close(L.powm(S, a, **kw), matrix(w**a, V), 1e-10*cond, 'power %g' % a)
        ctx.step(len(tests) + len(SMALL) + len(LARGE))
        T = {}
        for name, got, fw in tests:
            herm(ctx, got, S, name)
            ctx.near(got, matrix(fw, V), 1e-11*cond**1.5*(np.abs(fw).max() + (name == 'logm')), name)
            T[name] = got
        ctx.close(T['sqrtm'] @ T['sqrtm'], S, 1e-10, 'sqrtm squared')
        ctx.ok(np.linalg.eigvalsh(T['sqrtm']).min() > 0, 'sqrtm is not positive definite')
        ctx.near(T['invsqrtm'] @ T['sqrtm'], I.astype(S.dtype), 1e-10*cond, 'invsqrtm is not the inverse of sqrtm')
        ctx.close(T['invsqrtm'] @ S @ T['invsqrtm'], I, 1e-10*cond, 'whitening')
        ctx.close(L.expm(T['logm'], **kw), S, 1e-10*cond, 'expm of logm')
        H = matrix(np.log(w) - 0.3, V)
        ctx.near(L.logm(L.expm(H, **kw), **kw), H, 1e-10*cond, 'logm of expm')
        ctx.close(L.powm(S, -1, **kw), np.linalg.inv(S), 1e-10*cond, 'power -1')
        for a, b in ((0.5, 0.5), (1, -0.5), (2, -1.7), (0.3, 3)):
            ctx.close(L.powm(S, a, **kw) @ L.powm(S, b, **kw), L.powm(S, a + b, **kw), 1e-10*cond**2, 'powers %g and %g do not add' % (a, b))
        ctx.close(L.powm(L.powm(S, 0.5, **kw), 3, **kw), L.powm(S, 1.5, **kw), 1e-10*cond, 'power of a power')
        U = basis(p, 3, np.iscomplexobj(S))
        R = U @ S @ U.conj().T
        R = (R + R.conj().T)/2
        for name in ('sqrtm', 'invsqrtm', 'logm', 'expm'):
            got = getattr(L, name)(R, **kw)
            ctx.near(got, U @ T[name] @ U.conj().T, 1e-10*cond*max(1, np.abs(T[name]).max()), '%s is not unitarily covariant' % name)
        ctx.step(20)
        if p > 1:
            # the functions of Hermitian matrices see one triangle only through the same matrix
            ctx.near(L.sqrtm(np.asfortranarray(S), **kw), T['sqrtm'], 1e-12*np.abs(S).max(), 'layout')
    for c in (1e-8, 1e8):
        ctx.close(L.sqrtm(c*S), np.sqrt(c)*T['sqrtm'], 1e-9, 'scaling')
        ctx.near(L.logm(c*S), T['logm'] + np.log(c)*I, 1e-8, 'logarithm of a scaled matrix')
    for c in (1e-60, 1e-20, 1e-14, 1e-9, 1e9, 1e14, 1e60):
        for kw in ({}, dict(autograd=True)):
            ctx.close(L.sqrtm(c*S, **kw), np.sqrt(c)*T['sqrtm'], 1e-10*cond, 'scaling of sqrtm by %g' % c)
            ctx.close(L.invsqrtm(c*S, **kw), T['invsqrtm']/np.sqrt(c), 1e-10*cond, 'scaling of invsqrtm by %g' % c)
            ctx.near(L.logm(c*S, **kw), T['logm'] + np.log(c)*I, 1e-10*cond*(1 + abs(np.log(c))), 'logarithm of a matrix scaled by %g' % c)
            for a in (-1.7, -0.5, 0.3, 2):
                ctx.close(L.powm(c*S, a, **kw)/c**a, L.powm(S, a), 1e-10*cond**2, 'scaling of power %g by %g' % (a, c))
            ctx.step(7)
    Z = matrix(np.linspace(-2, 1, p), V)
    ctx.close(L.expm(Z), matrix(np.exp(np.linspace(-2, 1, p)), V), 1e-10, 'expm of an indefinite matrix')
    ctx.see(S)


def labelled(p, q, dt):
    A = (np.arange(p*q).reshape(p, q)*3 + 1).astype(dt)
    return A + 1j*np.arange(p*q)[::-1].reshape(p, q) if dt == complex else A


def vectors(ctx, p, q, dt):
    A = labelled(p, q, dt)
    for name, M in data.layouts(A):
        v = L.vec(M)
        ctx.same(np.asarray(v), np.array([M[i, j] for j in range(q) for i in range(p)], dtype=M.dtype), 'vec stacks the columns, %s layout' % name)
        ctx.step()
        if p == q:
            ctx.same(np.asarray(L.unvec(v)), np.array(M), 'unvec of vec, %s layout' % name)
    B = labelled(q, p, dt)
    ctx.close(L.vec(A @ B @ A), np.kron(A.T, A) @ L.vec(B), 1e-5 if dt == np.float32 else 1e-9, 'vec of a product')
    if p == q:
        v = labelled(p*p, 1, dt)[:, 0]
        ctx.same(np.asarray(L.vec(L.unvec(v))), v, 'vec of unvec')
        for name, w in (('strided', np.repeat(v, 2)[::2]),):
            ctx.same(np.asarray(L.unvec(w)), np.array([[v[j*p + i] for j in range(p)] for i in range(p)], dtype=v.dtype), 'unvec of a strided vector')
        ctx.step(2)
    ctx.see(A)


def halves(ctx, p, dt):
    n = p*(p + 1)//2
    A = labelled(p, p, dt)
    S = A + A.conj().T if dt == complex else (A + A.T)//2 if dt != float else (A + A.T)/2
    S = S.astype(dt)
    for name, M in data.layouts(S):
        v = L.vech(M)
        ctx.same(np.asarray(v), np.array([M[i, j] for j in range(p) for i in range(j, p)], dtype=M.dtype), 'vech stacks the lower triangle, %s layout' % name)
        ctx.same(np.asarray(L.unvech(v)), np.array(M), 'unvech of vech, %s layout' % name)
        ctx.step(2)
    v = labelled(n, 1, dt)[:, 0].copy()
    pos = np.cumsum([0] + list(range(p, 1, -1)))
    v[pos] = np.real(v[pos])
    M = L.unvech(v)
    ctx.same(np.asarray(M), np.array(np.conj(M).T), 'unvech is not Hermitian')
    ctx.same(np.asarray(L.vech(M)), v, 'vech of unvech')
    # the vector is left alone
    w = v.copy()
    L.unvech(w)
    ctx.same(w, v, 'unvech changes its argument')
    ctx.step(3)
    ctx.see(M)


def signed(ctx, p, dt):
    """Hermitian matrices of every sign pattern of entries, zero and extreme values"""
    for k, A in enumerate((-labelled(p, p, dt), labelled(p, p, dt) - np.array(p*p).astype(dt), labelled(p, p, dt)*np.array(-1).astype(dt)**np.arange(p).astype(int),
                           np.zeros((p, p), dt), 1e200*labelled(p, p, dt) if dt in (float, complex) else labelled(p, p, dt),
                           -1e-200*labelled(p, p, dt) if dt in (float, complex) else -labelled(p, p, dt))):
        A = A.astype(dt)
        S = np.tril(A) + np.conj(np.tril(A, -1)).T
        S[np.diag_indices(p)] = np.real(np.diag(S))*(-1)**np.arange(p)
        v = L.vech(S)
        ctx.same(np.asarray(v), np.array([S[i, j] for j in range(p) for i in range(j, p)], dtype=S.dtype), 'vech stacks the lower triangle, pattern %d' % k)
        ctx.same(np.asarray(L.unvech(v)) + 0, np.array(S) + 0, 'unvech of vech, pattern %d' % k)
        w = L.vec(A)
        ctx.same(np.asarray(w), np.array([A[i, j] for j in range(p) for i in range(p)], dtype=A.dtype), 'vec, pattern %d' % k)
        ctx.same(np.asarray(L.unvec(w)), A, 'unvec of vec, pattern %d' % k)
        ctx.step(4)


def extreme(ctx, w, V):
    """spectra at the ends of the range of numbers, in a basis of coordinates"""
    w = np.asarray(w, dtype=float)
    S = matrix(w, V)
    for kw in ({}, dict(autograd=True)):
        for name, got, want in (('sqrtm', L.sqrtm(S, **kw), np.sqrt(w)), ('invsqrtm', L.invsqrtm(S, **kw), 1/np.sqrt(w)), ('logm', L.logm(S, **kw), np.log(w)),
                                ('powm 0.3', L.powm(S, 0.3, **kw), w**0.3), ('powm -0.7', L.powm(S, -0.7, **kw), w**-0.7), ('powm 0', L.powm(S, 0, **kw), w**0)):
            want = matrix(want, V)
            ctx.step()
            for i in range(len(w)):
                ctx.ok(abs(got[i, i] - want[i, i]) <= 1e-10*abs(want[i, i]) + 1e-14*(name == 'logm'), '%s, entry %d' % (name, i), (got[i, i], want[i, i]))
            off = got - np.diag(np.diag(got))
            ctx.ok(not np.any(off), '%s of a diagonal matrix is not diagonal' % name, off)
        E = L.expm(matrix(np.log(w), V), **kw)
        for i in range(len(w)):
            ctx.near(E[i, i]/w[i], 1., 1e-10, 'expm, entry %d' % i)
    ctx.see(S)


def rejects(ctx, n):
    if int(round(np.sqrt(n)))**2 != n:
        ctx.raises(lambda: L.unvec(np.arange(n, dtype=float)), 'unvec of length %d' % n)
    k = int(round((-1 + np.sqrt(1 + 8*n))/2))
    if k*(k + 1)//2 != n:
        ctx.raises(lambda: L.unvech(np.arange(n, dtype=float)), 'unvech of length %d' % n)
    ctx.step()


def parts(ctx, shape, p, dt):
    r = np.random.RandomState(5)
    A = r.randn(*shape, p, p)
    A = A + 1j*r.randn(*A.shape) if dt == complex else A
    before = A.copy()
    for ag in (False, True):
        kw = dict(autograd=True) if ag else {}
        T = np.conj(np.swapaxes(A, -1, -2))
        ctx.close(L.multihconj(A, **kw), T, 1e-15, 'multihconj')
        H = L.multiherm(A, **kw)
        ctx.close(H, (A + T)/2, 1e-14, 'multiherm')
        ctx.close(L.multiherm(H, **kw), H, 1e-14, 'multiherm is not a projection')
        ctx.close(L.multihconj(H, **kw), H, 1e-14, 'multiherm is not Hermitian')
        ctx.close(L.multihconj(L.multihconj(A, **kw), **kw), A, 1e-15, 'multihconj is not an involution')
        ctx.close(L.multihconj(1j*A, **kw), -1j*T, 1e-15, 'multihconj is not conjugate linear')
        if not shape:
            h = L.hermitian(A, **kw)
            ctx.close(h, (A + T)/2, 1e-14, 'hermitian')
            ctx.close(L.hermitian(h, **kw), h, 1e-14, 'hermitian is not a projection')
        ctx.step(8)
    ctx.same(A, before, 'argument changed')
    ctx.see(H)


def toep(ctx, rho, p):
    for dt in (None, complex) + ((float,) if not isinstance(rho, complex) else ()):
        T = L.ToeplitzMatrix(rho, p) if dt is None else L.ToeplitzMatrix(rho, p, dtype=dt)
        ctx.step()
        ctx.ok(T.shape == (p, p) and T.dtype == np.dtype(dt or complex), 'shape and element type', T.shape, T.dtype)
        c = np.array([rho**k for k in range(p)])
        ctx.near(T[:, 0], c.astype(T.dtype), 1e-13*max(1, abs(c).max()), 'first column')
        ctx.near(T[0], np.conj(c).astype(T.dtype), 1e-13*max(1, abs(c).max()), 'first row')
        ctx.near(T, np.conj(T).T, 0., 'not Hermitian')
        for i in range(1, p):
            ctx.near(T[i, 1:], T[i - 1, :-1], 0., 'not Toeplitz')
        if abs(rho) < 1:
            ctx.ok(np.linalg.eigvalsh(T).min() > 0, 'not positive definite', rho)
    ctx.see(T)


def plan(tier):
    th = tier == 'thorough'
    out = [('functions', p, b, c) for p in ((1, 2, 3, 4, 5) if th else (1, 2, 3, 4)) for b in (0, 1, 2) for c in (False, True)]
    out += [('large', p, c) for p in (6, 9, 17, 40, 70) for c in (False, True)]
    out += [('vectors', p) for p in range(1, 41 if th else 13)] + [('parts', 0), ('toep', 0)]
    return out


def run_unit(ctx, what, p, *u):
    if what == 'functions':
        b, cplx = u
        E = (1., 2., 0.1, 5., 1e-3, 30., 0.5) if ctx.thorough else (1., 2., 0.1, 5., 1e-3)
        V = basis(p, b, cplx)
        for w in itertools.combinations_with_replacement(E, p):
            ctx.run('%s spectrum %s basis %d' % ('complex' if cplx else 'real', w, b), functions, ctx, w, V)
        if b == 0:
            for w in itertools.product((1e-300, 1e-150, 1e-17, 1., 1e17, 1e150, 1e300), repeat=min(p, 3)):
                if np.log10(max(w)) - np.log10(min(w)) > 301:   # LAPACK scales by the largest entry and underflows the smallest
                    continue
                ctx.run('%s extreme spectrum %s' % ('complex' if cplx else 'real', w), extreme, ctx, w, basis(len(w), 0, cplx))
    elif what == 'large':
        for b in (0, 1, 2):
            for name, w in (('spread', np.logspace(-1, 1, p)), ('pairs', 1. + np.arange(p)//2), ('equal', np.ones(p)), ('wide', np.logspace(-3, 1, p))):
                ctx.run('%s p=%d %s spectrum basis %d' % ('complex' if u[0] else 'real', p, name, b), functions, ctx, w, basis(p, b, u[0]))
    elif what == 'vectors':
        for dt in (float, complex, int, np.float32):
            for q in sorted({1, 2, 3, p, p + 1}):
                ctx.run('vec %dx%d %s' % (p, q, dt.__name__), vectors, ctx, p, q, dt)
            ctx.run('vech %d %s' % (p, dt.__name__), halves, ctx, p, dt)
            ctx.run('signs %d %s' % (p, dt.__name__), signed, ctx, p, dt)
        for n in range(12*(p - 1) + 1, 12*p + 1):
            ctx.run('length %d' % n, rejects, ctx, n)
    elif what == 'parts':
        for shape in ((), (1,), (2,), (3,), (5,), (20,)):
            for p in (1, 2, 3, 6):
                for dt in (float, complex):
                    ctx.run('stack %s of %dx%d %s' % (shape, p, p, dt.__name__), parts, ctx, shape, p, dt)
    else:
        for rho in (0.5, -0.9, 0., 0.99, 1., 2., 0.5j, 0.3 - 0.6j, -0.7 + 0.1j):
            for p in range(1, 13):
                ctx.run('Toeplitz %s %d' % (rho, p), toep, ctx, rho, p)
