"""Alphabets and deterministic seed data sets (no randomness beyond fixed seeds)."""
import itertools

import numpy as np

# observations, simplest first; no two are parallel within a list unless noted
REAL = {
    1: [(1,), (-2,), (3,), (0.5,)],
    2: [(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (-1, 3), (0.5, 2)],
    3: [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, -1), (1, 1, 1), (1, -1, 2)],
}
CPLX = {
    1: [(1,), (-2j,), (1 + 1j,), (0.5,)],
    2: [(1, 0), (0, 1), (1, 1j), (1, -1), (1j, 2), (1 + 1j, 1), (2, 1 - 1j)],
    3: [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1j, 0), (0, 1, 1j), (1, 0, -1), (1, 1, 1j), (1j, -1, 2)],
}


def alphabet(p, cplx):
    return [np.array(v, dtype=complex if cplx else float)
            for v in (CPLX if cplx else REAL)[p]]


def rank(M, tol=1e-9):
    return np.linalg.matrix_rank(M, tol) if len(M) else 0


def tyler_exists(X):
    """Every d-dimensional subspace holds fewer than N*d/p observations."""
    N, p = X.shape
    if not np.all(np.linalg.norm(X, axis=1) > 0) or rank(X) < p or N <= p:
        return p == 1 and N >= 1 and bool(np.all(X != 0))
    for d in range(1, p):
        for idx in itertools.combinations(range(N), d):
            B = X[list(idx)]
            if rank(B) < d:
                continue
            # number of observations in span(B)
            Q, _ = np.linalg.qr(B.T)
            R = X.T - Q @ (Q.conj().T @ X.T)
            inside = np.sum(np.linalg.norm(R, axis=0) < 1e-9 * np.linalg.norm(X, axis=1))
            if inside * p >= N * d:
                return False
    return True


def multisets(p, cplx, N, limit=None):
    """All multisets of N observations of the alphabet on which Tyler exists."""
    A = alphabet(p, cplx)
    out = []
    for idx in itertools.combinations_with_replacement(range(len(A)), N):
        X = np.array([A[i] for i in idx])
        if tyler_exists(X):
            out.append((''.join(map(str, idx)), X))
            if limit and len(out) >= limit:
                break
    return out


def gauss(N, p, cplx, seed=0, kind='gauss'):
    """Deterministic data in general position."""
    r = np.random.RandomState(1000 + 97*seed + 7*p + N)
    X = r.randn(N, p)
    if cplx:
        X = X + 1j*r.randn(N, p)
    if kind == 'corr':
        A = np.eye(p) + 0.6*np.tril(np.ones((p, p)), -1)
        if cplx:
            A = A + 0.5j*np.tril(np.ones((p, p)), -1)
        X = X @ A.T
    elif kind == 'heavy':
        X = X * (r.chisquare(1, size=(N, 1)) + 0.05)**-0.5
    elif kind == 'scaled':
        X = X * np.logspace(-1.5, 1.5, p)
    elif kind == 'small':
        X = X * 1e-3
    elif kind == 'big':
        X = X * 1e3
    elif kind == 'tiny':
        X = X * 1e-6
    elif kind == 'vast':
        X = X * 1e6
    elif kind == 'outliers':        # every fifth observation far away
        X[::5] *= 40
    elif kind == 'far':             # one very far observation
        X[-1] *= 3e3
    elif kind == 'near':            # one observation close to the centre
        X[N//2] *= 1e-6
    elif kind == 'same':            # half of the data are copies
        X[N//2:] = X[:N - N//2]
    return X


def spd(p, cplx, which):
    """Starting points / seed covariances."""
    if which == 'eye':
        S = np.eye(p)
    elif which == 'diag':
        S = np.diag(1. + np.arange(p))
    elif which == 'small':
        S = 1e-2*np.diag(2. + np.arange(p) % 2)
    elif which == 'tiny':
        S = 1e-9*np.diag(2. + np.arange(p) % 2)
    elif which == 'huge':
        S = 1e9*(np.diag(2. + np.arange(p) % 2) + 1)
    elif which == 'wide':
        S = np.diag(np.logspace(-4, 4, p)) if p > 1 else np.eye(1)
    else:
        r = np.random.RandomState(5 + p + len(which))
        A = r.randn(p, p) + (1j*r.randn(p, p) if cplx else 0)
        S = A @ A.conj().T + 0.3*np.eye(p)
        S = (S + S.conj().T)/2
    return S.astype(complex) if cplx else S


def hermitian_basis(p, cplx):
    """Orthogonal basis of the real space of Hermitian (symmetric) matrices."""
    out = []
    for i in range(p):
        H = np.zeros((p, p), dtype=complex if cplx else float)
        H[i, i] = 1
        out.append(H)
    for i in range(p):
        for j in range(i):
            H = np.zeros((p, p), dtype=complex if cplx else float)
            H[i, j] = H[j, i] = 1
            out.append(H)
            if cplx:
                H = np.zeros((p, p), dtype=complex)
                H[i, j], H[j, i] = 1j, -1j
                out.append(H)
    return out


def chunks(n, size):
    return [(i, min(i + size, n)) for i in range(0, n, size)]


def layouts(X):
    """The same values in other memory layouts."""
    yield 'C', np.ascontiguousarray(X)
    yield 'F', np.asfortranarray(X)
    big = np.zeros((2*X.shape[0], 3*X.shape[1]), dtype=X.dtype)
    big[::2, 1::3] = X
    yield 'strided', big[::2, 1::3]
    yield 'reversed', np.ascontiguousarray(X[::-1])[::-1]
    R = np.array(X)
    R.setflags(write=False)
    yield 'readonly', R
