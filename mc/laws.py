"""Exact law of a sampler: a sampler driven by standard normals is run on the zero noise
and on every basis vector of its noise space; it must be affine, and then the law of
the whole sample (means, covariances, independence) is read off exactly."""
import numpy as np


class Noise(np.random.RandomState):
    """RandomState whose normals come from a given vector and whose chi-squares from a list"""

    def __init__(self, z=(), chi=()):
        super().__init__(0)
        self.z, self.chi = list(z), list(chi)
        self.used = self.asked = 0
        self.dfs = []

    def standard_normal(self, size=None, dtype=None):
        n = 1 if size is None else int(np.prod(size))
        out = np.zeros(n)
        for i in range(n):
            out[i] = self.z[self.used] if self.used < len(self.z) else 0.
            self.used += 1
        return out[0] if size is None else out.reshape(size)

    def randn(self, *shape):
        return self.standard_normal(shape if shape else None)

    def normal(self, loc=0., scale=1., size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale*self.standard_normal(size)

    def chisquare(self, df, size=None):
        n = 1 if size is None else int(np.prod(size))
        out = np.array([self.chi[(self.asked + i) % len(self.chi)] for i in range(n)], dtype=float)
        self.asked += n
        self.dfs.append(df)
        return out[0] if size is None else out.reshape(size)

    def standard_gamma(self, shape, size=None):
        return self.chisquare(2*shape, size)/2

    def gamma(self, shape, scale=1., size=None):
        return self.standard_gamma(shape, size)*scale


def affine(ctx, sample, chi=(1.,), most=600):
    """sample(rng) -> flat array.  Returns (mean, A) with sample = mean + A z."""
    r0 = Noise((), chi)
    m = np.asarray(sample(r0)).ravel()
    K = r0.used
    ctx.ok(0 < K <= most, 'number of normal variates drawn', K)
    cols = []
    for k in range(K):
        e = np.zeros(K)
        e[k] = 1.
        r = Noise(e, chi)
        cols.append(np.asarray(sample(r)).ravel() - m)
        ctx.ok(r.used == K, 'the number of variates depends on their values')
    A = np.array(cols).T
    for s in range(3):
        z = np.sin(np.arange(K)*(1.3 + s) + s)*(s + 0.5)
        r = Noise(z, chi)
        ctx.close(np.asarray(sample(r)).ravel(), m + A @ z, 1e-9, 'the sample is not an affine function of the normal variates')
    ctx.step(K + 4)
    return m, A, r0.dfs


def gaussian_law(ctx, sample, N, p, mean, cov, cplx, chi=(1.,), factors=None, tol=1e-9):
    """sample(rng) -> N x p array: rows independent with law N(mean, factors[i]*cov)"""
    m, A, dfs = affine(ctx, sample, chi)
    ctx.ok(m.size == N*p, 'number of values', m.size, N*p)
    ctx.ok(np.iscomplexobj(m) == cplx, 'element type of the sample')
    mean = np.broadcast_to(mean, (N, p))
    ctx.close(m.reshape(N, p), np.asarray(mean).astype(m.dtype), tol, 'mean')
    f = np.ones(N) if factors is None else np.asarray(factors, float)
    C = A @ A.conj().T
    want = np.zeros((N*p, N*p), dtype=complex if cplx else float)
    for i in range(N):
        want[i*p:(i + 1)*p, i*p:(i + 1)*p] = f[i]*cov
    ctx.close(C, want.astype(C.dtype), tol, 'covariance of the sample (blocks: observations)')
    if cplx:
        P = A @ A.T
        ctx.near(P, np.zeros_like(P), tol*max(1., np.abs(want).max()), 'pseudo-covariance')
    return dfs
