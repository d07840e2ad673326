"""C20: the Kronecker MM iteration is stopped after every number of iterations and
Tyler's cost of the returned A kron B must never increase along the run; the converged
factors are tested against the stationarity equations in every Kronecker direction, and
against the exact answer on data built so that A0 kron B0 solves the problem."""
import itertools

import numpy as np

from mc import data, ref, core
from mc.c02 import mm_run
from robuststats.estimation import structured as struct

BOUNDS = {
    'quick': 'complex data: all 5- and 6-subsets of a 9-letter alphabet (2x2 factors, 210 data sets); general-position data for 9 factor sizes up to 4x5 and families with outliers and tiny, vast, near and far data; '
             'real data; data built for 4 pairs of factors x 7 sizes; every iteration 0..10 of each run; all Kronecker changes of an alphabet',
    'thorough': 'as quick with all 4- to 8-subsets and every iteration 0..30, 5 data families, sizes up to 6x6',
}
RULE = 'a state is (data set, number of iterations); a transition is one MM iteration'
SIZES = [(2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (2, 4), (3, 3), (1, 1), (4, 5)]
FAMILIES = ['gauss', 'heavy', 'tiny', 'vast', 'far', 'near', 'outliers']
TEX = np.array([1., 0.2, 5., 3., 0.7])


def letters():
    u = [np.array(v, dtype=complex) for v in ((1, 0), (0, 1), (1, 1j), (1, -1), (2, 1 + 1j))]
    out = [np.kron(u[i], u[j]) for i, j in ((0, 2), (1, 3), (2, 0), (3, 4), (4, 1))]
    out += [np.array(v, dtype=complex) for v in ((1, 0, 0, 1), (0, 1j, 1, 0), (1, 1, 1j, -1), (1, 2, 0, 1j))]
    return out


def factor(n, i, cplx=True):
    if i == 0:
        return np.eye(n, dtype=complex if cplx else float)
    return data.spd(n, cplx, ('diag', 'dense', 'another', 'further!')[i - 1])


def built(a, b, i, j, cplx=True):
    """observations for which A kron B solves Tyler's equation exactly"""
    r = np.random.RandomState(3 + a + 10*b)

    def unitary(n):
        G = r.randn(n, n) + (1j*r.randn(n, n) if cplx else 0)
        return np.linalg.qr(G)[0]
    F = [np.eye(a*b), np.kron(unitary(a), unitary(b)), unitary(a*b), unitary(a*b)]
    A, B = factor(a, i, cplx), factor(b, j, cplx)
    S = np.kron(A, B)
    R = np.linalg.cholesky(S)
    X = np.concatenate([(R @ f).T for f in F])
    n = len(X)
    X = X*TEX[np.arange(n) % 5][:, None]
    if cplx:
        X = X*np.exp(1j*np.arange(n))[:, None]
    return A, B, X


def mm(X, a, b, tol, iter_max):
    return struct.estimation_cov_kronecker_MM(X, a, b, tol=tol, iter_max=iter_max)


def converges(X, a, b):
    """the reference iteration converges quickly to well conditioned factors"""
    try:
        its, ds = mm_run(X, a, b, 400)
        A, B = its[-1]
        return bool(ds[-1] < 1e-6 and np.linalg.cond(A) < 1e5 and np.linalg.cond(B) < 1e5)
    except np.linalg.LinAlgError:
        return False


def valid(ctx, A, B, a, b, cplx, msg):
    for F, n, name in ((A, a, 'A'), (B, b, 'B')):
        ctx.ok(np.shape(F) == (n, n), msg + ': shape of ' + name, np.shape(F))
        ctx.ok(bool(np.all(np.isfinite(F))), msg + ': finite ' + name)
        ctx.near(F, F.conj().T, 1e-8*np.abs(F).max(), msg + ': Hermitian ' + name)
        ctx.ok(np.linalg.eigvalsh((F + F.conj().T)/2).min() > 0, msg + ': positive definite ' + name, F)
        if not cplx:
            ctx.near(np.imag(F), np.zeros((n, n)), 1e-10*np.abs(F).max(), msg + ': real ' + name)


def descent(ctx, X, a, b, K):
    last = ref.tyler_cost(X, np.eye(a*b))
    for k in range(1, K + 1):
        A, B, d, it = mm(X, a, b, 0., k)
        ctx.step(k)
        ctx.states += 1
        valid(ctx, A, B, a, b, np.iscomplexobj(X), 'iteration %d' % k)
        c = ref.tyler_cost(X, np.kron(A, B))
        ctx.ok(c <= last + 1e-8*(1 + abs(last)), 'the cost increases in iteration %d' % k, c, last)
        last = c
    ctx.see(A, B)
    ctx.trace()


def stationary(ctx, X, A, B, tol, msg):
    """derivative of the cost per observation along normalised directions of both factors"""
    N, p = X.shape
    S = np.kron(A, B)
    iS = np.linalg.inv(S)
    q = ref.quad(S, X)
    Y = X @ iS.T
    cplx = np.iscomplexobj(X)
    for first in (True, False):
        F = A if first else B
        h = ref.funm((F + F.conj().T)/2, np.sqrt)
        for H in data.hermitian_basis(len(F), cplx):
            dF = h @ H @ h/np.linalg.norm(H)
            dS = np.kron(dF, B) if first else np.kron(A, dF)
            dq = -np.real(np.sum(Y.conj() @ dS * Y, axis=1))
            g = p*np.mean(dq/q) + np.real(np.trace(iS @ dS))
            ctx.near(g, 0., tol, msg + ' (factor %s)' % ('A' if first else 'B'))


def solution(ctx, X, a, b, form):
    if form == 'function':
        A, B, d, it = mm(X, a, b, 1e-10, 3000)
        ctx.ok(it < 3000, 'no convergence', it, d)
    else:
        e = struct.KroneckerEllipticalMM(a, b, 1e-10, 3000, store_precision=form == 'stored').fit(X)
        A, B, it = e.A_, e.B_, 1
        ctx.close(e.covariance_, np.kron(A, B), 1e-12, 'covariance_ is not A kron B')
        P = e.get_precision()
        ctx.close(P @ np.kron(A, B), np.eye(a*b), 1e-6, 'precision')
        ctx.near(e.location_, np.zeros(a*b), 0., 'location_')
    ctx.step(it)
    valid(ctx, A, B, a, b, np.iscomplexobj(X), 'converged')
    stationary(ctx, X, A, B, 1e-6, 'converged factors are not stationary')
    ctx.see(A, B)
    ctx.trace()
    return A, B


def changes(n, cplx):
    C = np.eye(n) + np.tril(0.5*np.ones((n, n)), -1) + (0.3j*np.triu(np.ones((n, n)), 1) if cplx else 0)
    out = [C, np.diag(np.linspace(0.5, 3, n)) + 0*C, np.eye(n)[::-1] + 0*C]
    if cplx:
        out.append(np.diag(np.exp(1j*np.arange(n))))
    return out


def equivariance(ctx, X, a, b, cplx):
    A, B = solution(ctx, X, a, b, 'function')
    S = ref.normalise(np.kron(A, B), 'determinant')
    for i, j in itertools.product(range(len(changes(a, cplx))), range(len(changes(b, cplx)))):
        C = np.kron(changes(a, cplx)[i], changes(b, cplx)[j])
        A2, B2, d, it = mm(X @ C.T, a, b, 1e-10, 3000)
        ctx.step(it)
        T = C @ S @ C.conj().T
        ctx.close(ref.normalise(np.kron(A2, B2), 'determinant'), ref.normalise(T, 'determinant'), 1e-5, 'Kronecker change %d, %d of the data' % (i, j))
    # transposition of the roles, order, texture and duplication
    N = len(X)
    t = np.arange(a*b).reshape(a, b).T.ravel()
    A2, B2, _, it = mm(X[:, t], b, a, 1e-10, 3000)
    ctx.close(ref.normalise(np.kron(A2, B2), 'determinant'), S[np.ix_(t, t)], 1e-5, 'exchanged factors')
    w = TEX[np.arange(N) % 5][:, None]*(np.exp(1j*np.arange(N))[:, None] if cplx else (-1.)**np.arange(N)[:, None])
    for name, Y in (('scaled observations', X*w), ('reversed order', X[::-1]), ('doubled data', np.concatenate([X, X])), ('huge data', 1e5*X)):
        A2, B2, _, it = mm(Y, a, b, 1e-10, 3000)
        ctx.close(ref.normalise(np.kron(A2, B2), 'determinant'), S, 1e-5, name)
        ctx.step(it)


def exact(ctx, a, b, i, j, cplx):
    A0, B0, X = built(a, b, i, j, cplx)
    for form in ('function', 'stored', 'unstored'):
        A, B = solution(ctx, X, a, b, form)
        ctx.close(ref.trace_norm(A), ref.trace_norm(A0), 1e-6, 'factor A of data following A kron B')
        ctx.close(ref.trace_norm(B), ref.trace_norm(B0), 1e-6, 'factor B of data following A kron B')


def plan(tier):
    th = tier == 'thorough'
    sizes = SIZES + ([(6, 6), (5, 2)] if th else [])
    out = []
    for n in (4, 5, 6, 7, 8) if th else (5, 6):
        m = len(list(itertools.combinations(range(9), n)))
        out += [('subsets', n, lo, hi) for lo, hi in data.chunks(m, 9)]
    for a, b in sizes:
        for fam in FAMILIES + (['corr', 'scaled', 'small', 'same'] if th else []):
            for cplx in (True, False):
                out.append(('general', a, b, fam, cplx))
        if (a, b) != (6, 6):
            for cplx in (True, False):
                out.append(('built', a, b, cplx))
    return out


def run_unit(ctx, what, *u):
    K = 30 if ctx.thorough else 10
    if what == 'subsets':
        n, lo, hi = u
        L = letters()
        for idx in list(itertools.combinations(range(9), n))[lo:hi]:
            X = np.array([L[i] for i in idx])
            if not converges(X, 2, 2):
                ctx.notes['skipped_no_fast_convergence'] = ctx.notes.get('skipped_no_fast_convergence', 0) + 1
                continue
            tag = 'letters ' + ''.join(map(str, idx))
            ctx.run(tag + ' descent', descent, ctx, X, 2, 2, K, X=X)
            ctx.run(tag + ' solution', solution, ctx, X, 2, 2, 'function', X=X)
            if not ctx.thorough and n == 6:
                ctx.run(tag + ' class', solution, ctx, X, 2, 2, 'stored', X=X)
    elif what == 'general':
        a, b, fam, cplx = u
        for N in sorted({2*a*b + 1, 3*max(a, b) + 2, max(a, b), max(a, b) + 1, 2*max(a, b)} | ({120} if a*b == 6 else set()) | ({1100} if a*b == 6 and fam == 'gauss' else set())):
            if N < a/b + b/a + 0.5:     # the minimiser is not unique
                continue
            X = data.gauss(N, a*b, cplx, 1, fam)
            if not converges(X, a, b):
                ctx.notes['skipped_no_fast_convergence'] = ctx.notes.get('skipped_no_fast_convergence', 0) + 1
                continue
            tag = '%dx%d N=%d %s %s' % (a, b, N, fam, 'complex' if cplx else 'real')
            ctx.run(tag + ' descent', descent, ctx, X, a, b, K, X=X)
            for form in ('function', 'stored', 'unstored'):
                ctx.run(tag + ' ' + form, solution, ctx, X, a, b, form, X=X)
            if (a*b <= 9 and fam in ('gauss', 'heavy') and N in (2*a*b + 1, max(a, b) + 1)) or ctx.thorough:
                ctx.run(tag + ' equivariance', equivariance, ctx, X, a, b, cplx, X=X)
    else:
        a, b, cplx = u
        for i, j in ((0, 0), (1, 2), (2, 3), (3, 4)):
            ctx.run('%dx%d factors %d %d %s' % (a, b, i, j, 'complex' if cplx else 'real'), exact, ctx, a, b, i, j, cplx)
