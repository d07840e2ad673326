"""C26: every sampler is run on enough linearly independent noise sequences to determine
its affine response exactly; the law of the whole sample (means, covariances, independence
of the columns, pseudo-covariances) then follows from the Gaussian law of the noise.
Generated matrices and textures are tested for a grid of sizes x noise sequences."""
import itertools

import numpy as np

from mc import data
from mc.c17 import uniforms
from robuststats.utils import generation_data as G

BOUNDS = {
    'quick': 'samplers: (p, N) up to (5, 4) and (1, 300), (2, 120), (30, 6), 4-5 covariances, 8 texture sets, 6 frame shapes, real and complex, the full affine response; '
             'covariances and frames: sizes 2..12, 30 and 400 x all ranks x 20 noise sequences and extreme uniforms; textures: 8 shape parameters x 5 lengths x 10 sequences',
    'thorough': 'as quick with (p, N) up to (7, 7) and 100 noise sequences',
}
RULE = 'a case is (generator, parameters, noise sequence or whole noise space)'


def response(ctx, draw, K, tol=1e-9):
    """draw() uses the global random stream.  Finds c, A with draw = c + A z for the K normal
    variates z the stream starts with, from K+1 seeds, and confirms it on other seeds."""
    zs, xs = [], []
    for s in range(K + 12):
        zs.append(np.random.RandomState(s).randn(K))
        np.random.seed(s)
        x = np.asarray(draw())
        xs.append(np.concatenate([x.real.ravel(), x.imag.ravel()]) if np.iscomplexobj(x) else x.ravel())
        ctx.step()
    Z = np.column_stack([np.ones(len(zs)), np.array(zs)])
    X = np.array(xs)
    sol, _, rank, sv = np.linalg.lstsq(Z, X, rcond=None)
    ctx.ok(rank == K + 1, 'noise sequences are dependent')
    scale = np.abs(X).max()
    # 11 more seeds than unknowns: an exact fit means an affine response
    ctx.near(Z @ sol, X, 1e-8*scale, 'the sample is not an affine function of the normal variates')
    return x.shape, sol[0], sol[1:].T


def gaussian(ctx, draw, p, N, cov, factors, K, cplx):
    shape, c, A = response(ctx, draw, K)
    ctx.ok(shape == (p, N), 'shape of the sample', shape, (p, N))
    ctx.ok(len(c) == (2 if cplx else 1)*p*N, 'element type of the sample')
    size = np.sqrt(np.abs(A @ A.T).max())
    ctx.near(c, np.zeros(len(c)), 1e-8*size, 'mean')
    want = np.kron(np.eye(p*N), 1.)*0
    want = np.zeros((p, N, p, N), dtype=complex)
    for n in range(N):
        want[:, n, :, n] = cov[n] if np.ndim(cov) == 3 else factors[n]*cov
    want = want.reshape(p*N, p*N)
    if cplx:
        B = A[:p*N] + 1j*A[p*N:]
        got, pseudo = B @ B.conj().T, B @ B.T
        ctx.near(pseudo, 0*pseudo, 1e-7*size**2, 'pseudo-covariance')
    else:
        got = A @ A.T
    ctx.near(got, want, 1e-7*size**2, 'covariance of the sample')
    ctx.see(got)
    ctx.trace()


def factor_sets(N):
    return [('ones', np.ones((N, 1))), ('spread', np.logspace(-2, 2, N)[:, None]), ('pattern', (1. + np.arange(N) % 3)[:, None]), ('flat', np.linspace(0.5, 3, N)), ('falling', np.linspace(4, 0.3, N)), ('mixed', (1. + (3*np.arange(N)) % 5)), ('integers', 1 + np.arange(N)[::-1]), ('zero', np.eye(N)[:1].T*2.)]


def covs(p, cplx):
    return [(m, data.spd(p, cplx, m)) for m in ('eye', 'diag', 'dense', 'another', 'small')]


def samplers(ctx, p, N, cplx):
    tag = '%s p=%d N=%d' % ('complex' if cplx else 'real', p, N)
    K = (2 if cplx else 1)*p*N
    std = G.sample_complex_standard_normal_distribution if cplx else G.sample_standard_normal_distribution
    nor = G.sample_complex_normal_distribution if cplx else G.sample_normal_distribution
    com = G.sample_complex_compound_distribution if cplx else G.sample_compound_distribution
    ctx.run(tag + ' standard', gaussian, ctx, lambda: std(p, N), p, N, np.eye(p), np.ones(N), K, cplx)
    for m, S in covs(p, cplx):
        before = S.copy()
        ctx.run('%s covariance %s' % (tag, m), gaussian, ctx, lambda: nor(N, S), p, N, S, np.ones(N), K, cplx)
        for f, tau in factor_sets(N):
            t0 = tau.copy()
            ctx.run('%s covariance %s textures %s' % (tag, m, f), gaussian, ctx, lambda: com(tau, S), p, N, S, tau.ravel(), K, cplx)
            ctx.run('%s covariance %s textures %s arguments' % (tag, m, f), lambda: (ctx.same(S, before, 'covariance changed'), ctx.same(tau, t0, 'textures changed')))
    for k in range(1, p + 1):
        for how in ('frame', 'dense'):
            U = np.linalg.qr(data.spd(p, cplx, 'dense'))[0][:, :k] if how == 'frame' else data.spd(p, cplx, 'another')[:, :k]
            tau_uuh(ctx, tag, p, k, N, np.ascontiguousarray(U), cplx, how)


def tau_uuh(ctx, tag, p, k, N, U, cplx, how):
    f = G.sample_complex_tau_UUH_distribution if cplx else G.sample_tau_UUH_distribution
    K = (2 if cplx else 1)*(p + k)*N
    for name, tau in factor_sets(N):
        cov = np.array([t*U @ U.conj().T + np.eye(p) for t in tau.ravel()])
        ctx.run('%s rank %d %s textures %s' % (tag, k, how, name), gaussian, ctx, lambda: f(tau, U), p, N, cov, None, K, cplx)


def covariance(ctx, p, cplx, det, how):
    f = G.generate_complex_covariance if cplx else G.generate_covariance
    if isinstance(how, int):
        np.random.seed(how)
        S = f(p, unit_det=True) if det else f(p) if how % 2 else f(p, False)
    else:
        u = uniforms(())
        u.uni = how
        old = np.random.rand, np.random.uniform, np.random.random, np.random.random_sample
        try:
            np.random.rand = lambda *s: u.unif(s)
            np.random.random = np.random.random_sample = lambda size=None: u.unif(() if size is None else size if np.ndim(size) else (size,))
            np.random.uniform = lambda low=0., high=1., size=None: low + (high - low)*u.unif(() if size is None else size if np.ndim(size) else (size,))
            np.random.seed(2)
            S = f(p, unit_det=det)
        finally:
            np.random.rand, np.random.uniform, np.random.random, np.random.random_sample = old
    ctx.step()
    ctx.ok(S.shape == (p, p) and np.iscomplexobj(S) == cplx, 'shape and element type', S.shape, S.dtype)
    ctx.ok(bool(np.all(np.isfinite(S))), 'not finite')
    ctx.near(S, S.conj().T, 1e-12*np.abs(S).max(), 'not Hermitian')
    ctx.ok(np.linalg.eigvalsh((S + S.conj().T)/2).min() > 0, 'not positive definite')
    if det:
        ctx.near(np.linalg.slogdet(S)[1], 0., 1e-8*p, 'determinant is not one')
    ctx.see(S)


def frame(ctx, p, k, cplx, seed):
    np.random.seed(seed)
    U = (G.generate_complex_stiefel if cplx else G.generate_stiefel)(p, k)
    ctx.step()
    ctx.ok(U.shape == (p, k) and np.iscomplexobj(U) == cplx, 'shape and element type', U.shape, U.dtype)
    ctx.near(U.conj().T @ U, np.eye(k), 1e-10, 'columns are not orthonormal')
    ctx.see(U)


def gamma(ctx, N, nu, seed):
    np.random.seed(seed)
    t = G.generate_textures_gamma_dist(N) if nu is None else G.generate_textures_gamma_dist(N, nu)
    nu = 0.1 if nu is None else nu
    ctx.step()
    ctx.ok(t.shape == (N, 1) and bool(np.all(np.isfinite(t))) and bool(np.all(t > 0)), 'textures are not positive numbers', t)
    # one gamma variate of the given shape and mean one per texture
    ctx.close(t, np.random.RandomState(seed).standard_gamma(nu, size=(N, 1))/nu, 1e-10, 'gamma variates of mean one')
    ctx.see(t)


def lognormal(ctx, N, v, seed):
    def draw():
        t = G.generate_textures_lognormal_dist(N) if v is None else G.generate_textures_lognormal_dist(N, v)
        ctx.ok(t.shape == (N, 1) and bool(np.all(np.isfinite(t))) and bool(np.all(t > 0)), 'textures are not positive numbers', t)
        return np.log(t)
    w = 2.4 if v is None else v
    shape, c, A = response(ctx, draw, N)
    ctx.near(c, np.full(N, -w/2), 1e-7*max(1, w), 'mean of the logarithms (textures of mean one)')
    ctx.near(A @ A.T, w*np.eye(N), 1e-7*max(1, w), 'variance of the logarithms')
    ctx.see(c, A)


def rejects(ctx):
    R, C = np.eye(2), np.eye(2, dtype=complex)
    for f, S in ((G.sample_normal_distribution, C), (G.sample_complex_normal_distribution, R)):
        ctx.raises(lambda: f(3, S), 'covariance of the wrong kind')
    for f, S in ((G.sample_compound_distribution, C), (G.sample_complex_compound_distribution, R), (G.sample_tau_UUH_distribution, C[:, :1]), (G.sample_complex_tau_UUH_distribution, R[:, :1])):
        ctx.raises(lambda: f(np.ones((3, 1)), S), 'matrix of the wrong kind')
    ctx.step(6)


def plan(tier):
    th = tier == 'thorough'
    P, N = (7, 7) if th else (5, 4)
    out = [('samplers', p, n, c) for p in range(1, P + 1) for n in range(1, N + 1) for c in (False, True) if p*n <= 24 or th]
    out += [('big', p, n, c) for p, n in ((1, 300), (2, 120), (30, 6)) for c in (False, True)]
    out += [('generated', p, 0, c) for p in list(range(2, 13)) + [30] for c in (False, True)]
    out += [('high', 400, 0, c) for c in (False, True)]
    out += [('textures', 0, 0, False), ('rejects', 0, 0, False)]
    return out


UNI = [(0.5,), (1 - 1e-16,), (1e-3, 0.9), (0.2, 0.2, 1e-3, 0.7)]


def run_unit(ctx, what, p, N, cplx):
    seeds = 100 if ctx.thorough else 20
    tag = 'complex' if cplx else 'real'
    if what == 'samplers':
        samplers(ctx, p, N, cplx)
    elif what == 'big':
        K = (2 if cplx else 1)*p*N
        S, tau = data.spd(p, cplx, 'dense'), factor_sets(N)[5][1]
        std, nor, com = ((G.sample_complex_standard_normal_distribution, G.sample_complex_normal_distribution, G.sample_complex_compound_distribution) if cplx
                         else (G.sample_standard_normal_distribution, G.sample_normal_distribution, G.sample_compound_distribution))
        t = '%s p=%d N=%d' % (tag, p, N)
        ctx.run(t + ' standard', gaussian, ctx, lambda: std(p, N), p, N, np.eye(p), np.ones(N), K, cplx)
        ctx.run(t + ' normal', gaussian, ctx, lambda: nor(N, S), p, N, S, np.ones(N), K, cplx)
        ctx.run(t + ' compound', gaussian, ctx, lambda: com(tau, S), p, N, S, tau, K, cplx)
    elif what == 'generated':
        for det in (False, True):
            for how in list(range(seeds)) + UNI:
                ctx.run('%s covariance p=%d unit_det=%s %s' % (tag, p, det, how), covariance, ctx, p, cplx, det, how)
        for k in range(1, p + 1) if p < 30 else (1, 15, 30):
            for s in range(seeds//4):
                ctx.run('%s frame %dx%d %d' % (tag, p, k, s), frame, ctx, p, k, cplx, s)
    elif what == 'high':
        for s in range(2):
            ctx.run('%s covariance p=%d unit_det=True %d' % (tag, p, s), covariance, ctx, p, cplx, True, s)
    elif what == 'rejects':
        ctx.run('rejections', rejects, ctx)
    else:
        for n in (1, 2, 3, 10, 100):
            for s in range(10):
                for nu in (None, 0.1, 0.5, 1., 2, 10., 0.03, 100.):
                    ctx.run('gamma textures N=%d nu=%s seed %d' % (n, nu, s), gamma, ctx, n, nu, s)
            for v in (None, 2.4, 0.1, 1., 4, 9., 0.01):
                if n <= 10:
                    ctx.run('lognormal textures N=%d variance=%s' % (n, v), lognormal, ctx, n, v, 0)
