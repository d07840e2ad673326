"""Reference models, written from the textbook definitions only."""
import numpy as np
from scipy.special import gammaln
from scipy.stats import chi2


def quad(S, X):
    """x^H S^-1 x for every row x."""
    return np.real(np.sum(X.conj().T * np.linalg.solve(S, X.T), axis=0))


def weight(kind, par, p, cplx):
    """t -> u(t)"""
    if kind == 'tyler':
        return lambda t: p/t
    if kind == 'student':
        # multivariate t with par degrees of freedom; a complex vector of size p
        # is the real vector (Re, Im) of size 2p with shape realequiv(S)/..:
        # its real quadratic form is 2 x^H S^-1 x
        return (lambda t: (par + 2*p)/(par + 2*t)) if cplx else (lambda t: (par + p)/(par + t))
    if kind == 'huber':
        if cplx:      # t ~ chi2_{2p}/2 under the circular Gaussian law
            a = chi2.ppf(par, 2*p)/2
            b = chi2.cdf(2*a, 2*p + 2) + a*(1 - par)/p
        else:         # t ~ chi2_p
            a = chi2.ppf(par, p)
            b = chi2.cdf(a, p + 2) + a*(1 - par)/p
        return lambda t: np.minimum(1., a/t)/b
    raise ValueError(kind)


def step(kind, par, S, X):
    N, p = X.shape
    u = weight(kind, par, p, np.iscomplexobj(X))(quad(S, X))
    return (X.T*u) @ X.conj()/N


def scm(X):
    return X.T @ X.conj()/len(X)


def run(kind, par, X, S0, K):
    """The first K iterates and relative changes of the fixed-point iteration."""
    Ss, ds = [S0], [np.inf]
    for _ in range(K):
        S = step(kind, par, Ss[-1], X)
        ds.append(np.linalg.norm(S - Ss[-1])/np.linalg.norm(Ss[-1]))
        Ss.append(S)
    return Ss, ds


def solve(kind, par, X, S0=None, tol=1e-13, itmax=20000):
    """Solution of S = step(S); None if the iteration is too slow."""
    p = X.shape[1]
    S = np.eye(p, dtype=X.dtype)*np.real(np.trace(scm(X)))/p if S0 is None else S0
    last = None
    for k in range(itmax):
        T = step(kind, par, S, X)
        d = np.linalg.norm(T - S)/np.linalg.norm(S)
        S = T
        if d < tol:
            return S
    return None


def trace_norm(S):
    return S*S.shape[0]/np.real(np.trace(S))


def normalise(S, how):
    p = len(S)
    if how == 'trace':
        return S*p/np.real(np.trace(S))
    if how == 'determinant':
        return S/np.exp(np.linalg.slogdet(S)[1]/p)
    if how == 'element':
        return S/np.real(S[0, 0])
    return S


def logdet(S):
    return np.linalg.slogdet(S)[1]


def normal_logpdf(X, m, S):
    """real or circular complex Gaussian log-density of the rows of X"""
    p = len(S)
    q = quad(S, X - m)
    if np.iscomplexobj(S):
        return -p*np.log(np.pi) - logdet(S) - q
    return -0.5*(p*np.log(2*np.pi) + logdet(S) + q)


def t_logpdf(X, m, S, df):
    """real or circular complex multivariate t log-density (scipy's df)"""
    p = len(S)
    q = quad(S, X - m)
    if np.iscomplexobj(S):
        n, q, ld = 2*p, 2*q, 2*(logdet(S)) - 2*p*np.log(2)
    else:
        n, ld = p, logdet(S)
    return (gammaln((df + n)/2) - gammaln(df/2) - n/2*np.log(df*np.pi)
            - 0.5*ld - (df + n)/2*np.log1p(q/df))


def tyler_cost(X, Q):
    N, p = X.shape
    return p*np.sum(np.log(quad(Q, X))) + N*logdet(Q)


def funm(S, f):
    w, V = np.linalg.eigh(S)
    return (V*f(w)) @ V.conj().T


def realequiv(S):
    return 0.5*np.block([[S.real, -S.imag], [S.imag, S.real]])
