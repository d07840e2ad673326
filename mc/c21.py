"""C21: the gradient handed to the optimiser is compared with the exact derivative of the
circular t likelihood in every direction of both factors at a grid of points; every fit
is tested for validity, stationarity in every Kronecker direction and agreement with a
reference flip-flop iteration, and its score with the t likelihood."""
import itertools

import numpy as np

from mc import data, ref
from mc.c20 import built, changes, factor, letters, valid
from robuststats.estimation import structured as struct

BOUNDS = {
    'quick': 'gradients: 7 factor sizes up to 3x4 x 5 degrees of freedom x 8 locations x 6 points x all Hermitian directions; fits: 8 factor sizes up to 4x5, '
             '5 degrees of freedom, 3 data families, families with outliers, tiny, vast, near and far data, 2-3 sample sizes, 4 starting points, centred or not; all 7-subsets of a 9-letter alphabet; Kronecker changes',
    'thorough': 'as quick with 6 families, all 5- to 8-subsets, sizes up to 6x5',
}
RULE = 'a state is (data set, parameters, point or start)'
DFS = [3, 1, 0.5, 10, 200.]
SIZES = [(2, 2), (2, 3), (3, 2), (1, 2), (2, 1), (3, 3), (3, 4)]


def loglik(X, S, df, loc):
    return float(np.sum(ref.t_logpdf(X.astype(complex), loc, S.astype(complex), df)))


def derivative(X, A, B, df, loc, dA, dB):
    """of minus the log-likelihood"""
    N, p = X.shape
    S = np.kron(A, B)
    dS = np.kron(dA, B) + np.kron(A, dB)
    Y = X - loc
    q = ref.quad(S, Y)
    Z = Y @ np.linalg.inv(S).T
    dq = -np.real(np.sum(Z.conj() @ dS * Z, axis=1))
    return (df + 2*p)/2*np.sum(2*dq/(df + 2*q)) + N*np.real(np.trace(np.linalg.solve(S, dS)))


def directions(A, B):
    for first in (True, False):
        F = A if first else B
        h = ref.funm((F + F.conj().T)/2, np.sqrt)
        for H in data.hermitian_basis(len(F), True):
            d = h @ H @ h/np.linalg.norm(H)
            yield (d, 0*B) if first else (0*A, d)


def locations(p):
    return [('none', None), ('zero', np.zeros(p)), ('real', np.linspace(-1, 2, p)), ('complex', np.exp(1j*np.arange(p))), ('large', 30*np.exp(-1j*np.arange(p))),
            ('imaginary', 1j*np.linspace(2, -1, p)), ('one component', 1j*(np.arange(p) == p - 1)), ('small', 1e-6*np.exp(1j*np.arange(p)))]


def gradient(ctx, X, a, b, df, loc, A, B):
    gen = getattr(struct, '_generate_egrad_function_kronecker_student', None)
    genc = getattr(struct, '_generate_cost_function_kronecker_student', None)
    if gen is None or genc is None:
        ctx.notes['internal_gradient_not_found'] = 1
        return
    l = np.zeros(a*b) if loc is None else loc
    G = gen(X, a, b, df, loc)(A, B)
    c = genc(X, df, loc)(A, B)
    ctx.step(2)
    ctx.close(c, -loglik(X, np.kron(A, B), df, l), 1e-8, 'cost of the model')
    for n, (dA, dB) in enumerate(directions(A, B)):
        want = derivative(X, A, B, df, l, dA, dB)
        got = np.real(np.sum(np.conj(G[0])*dA) + np.sum(np.conj(G[1])*dB))
        ctx.near(got, want, 1e-7*len(X)*a*b*max(1, df), 'derivative in direction %d' % n)
    ctx.see(*G)


def flipflop(X, a, b, df, loc, start=None):
    """reference solution, None if slow or ill conditioned"""
    N, p = X.shape
    Y = (X - loc).reshape(N, a, b)
    A, B = (np.eye(a, dtype=complex), np.eye(b, dtype=complex)*np.mean(np.abs(Y)**2)) if start is None else start

    def step(A, B):
        iA, iB = np.linalg.inv(A), np.linalg.inv(B)
        Na = Y @ iB.T @ np.conj(np.swapaxes(Y, 1, 2))
        u = (df + 2*p)/(df + 2*np.real(np.einsum('ij,nji->n', iA, Na)))
        A = np.einsum('n,nij->ij', u, Na)/(N*b)
        iA = np.linalg.inv(A)
        Na = Y @ iB.T @ np.conj(np.swapaxes(Y, 1, 2))
        u = (df + 2*p)/(df + 2*np.real(np.einsum('ij,nji->n', iA, Na)))
        Nb = np.swapaxes(Y, 1, 2) @ iA.T @ np.conj(Y)
        B = np.einsum('n,nij->ij', u, Nb)/(N*a)
        d = np.real(np.linalg.det(A))**(1/a)
        return A/d, B*d
    try:
        for k in range(3000):
            A2, B2 = step(A, B)
            d = np.linalg.norm(A2 - A)/np.linalg.norm(A2) + np.linalg.norm(B2 - B)/np.linalg.norm(B2)
            A, B = A2, B2
            if d < 1e-11:
                break
        if d < 1e-9 and np.linalg.cond(A) < 1e4 and np.linalg.cond(B) < 1e4:
            return A, B
    except np.linalg.LinAlgError:
        pass
    return None


def fit(ctx, X, a, b, df, centred, init, want):
    e = struct.KroneckerStudent(a, b, df, assume_centered=centred)
    ctx.ok(e.fit(X, init=init) is e, 'fit does not return the estimator')
    ctx.step()
    A, B = np.asarray(e.A_), np.asarray(e.B_)
    loc = np.zeros(a*b) if centred else X.mean(0)
    valid(ctx, A, B, a, b, True, 'fit')
    ctx.near(abs(np.linalg.det(A)), 1., 1e-6, 'determinant of A')
    ctx.close(e.covariance_, np.kron(A, B), 1e-12, 'covariance_ is not A kron B')
    ctx.close(e.get_precision() @ e.covariance_, np.eye(a*b), 1e-6, 'precision')
    ctx.near(e.location_, loc, 1e-12*max(1, np.abs(X).max()), 'location_')
    N = len(X)
    for n, (dA, dB) in enumerate(directions(A, B)):
        ctx.near(derivative(X, A, B, df, loc, dA, dB)/N, 0., 1e-4, 'likelihood is not stationary in direction %d' % n)
    ctx.close(np.kron(A, B), np.kron(*want), 5e-3*max(1., np.sqrt(np.linalg.cond(want[0])*np.linalg.cond(want[1]))), 'fit and reference solution')
    got = e.score(X)
    ctx.close(got, loglik(X, np.kron(A, B), df, loc), 1e-8, 'score of the training data')
    for s in (np.eye(a*b), np.kron(*want)*2, np.mean(np.abs(X)**2)*np.eye(a*b)):
        ctx.ok(got >= loglik(X, s, df, loc) - 1e-6*abs(got), 'a worse fit than another Kronecker matrix')
    for T in (data.gauss(3, a*b, True, 9), data.gauss(1, a*b, True, 4)*20, X[::-1], np.zeros((2, a*b), dtype=complex)):
        ctx.close(e.score(T), loglik(T, np.kron(A, B), df, loc), 1e-8, 'score of other data')
    ctx.step(6)
    ctx.see(A, B)
    ctx.trace()
    return e


def equivariance(ctx, X, a, b, df, centred):
    S = struct.KroneckerStudent(a, b, df, assume_centered=centred).fit(X).covariance_
    for i, j in itertools.product(range(4), repeat=2):
        C = np.kron(changes(a, True)[i], changes(b, True)[j])
        e = struct.KroneckerStudent(a, b, df, assume_centered=centred).fit(X @ C.T)
        D = np.linalg.inv(C)
        ctx.close(D @ e.covariance_ @ D.conj().T, S, 2e-2, 'Kronecker change %d, %d of the data' % (i, j))
        ctx.step()
    t = np.arange(a*b).reshape(a, b).T.ravel()
    e = struct.KroneckerStudent(b, a, df, assume_centered=centred).fit(X[:, t])
    ctx.close(e.covariance_, S[np.ix_(t, t)], 1e-2, 'exchanged factors')
    for name, Y, f in (('reversed order', X[::-1], 1), ('doubled data', np.concatenate([X, X]), 1), ('scaled data', 10*X, 100)):
        e = struct.KroneckerStudent(a, b, df, assume_centered=centred).fit(Y)
        ctx.close(e.covariance_, f*S, 1e-2, name)
        ctx.step()
    ctx.trace()


def inits(a, b):
    return [('default', None), ('given', (ref.normalise(factor(a, 3), 'determinant'), factor(b, 2))), ('list', [np.eye(a, dtype=complex), 5*factor(b, 4)]),
            ('far', (ref.normalise(np.diag(np.logspace(-2, 2, a)).astype(complex), 'determinant'), 1e3*(np.diag(np.logspace(-1, 2, b)[::-1]) + 0.1).astype(complex)))]


def plan(tier):
    th = tier == 'thorough'
    out = [('gradient', a, b, df) for a, b in SIZES for df in DFS]
    for a, b in SIZES + [(4, 5)] + ([(6, 5)] if th else []):
        for df in DFS if a*b < 12 or th else DFS[:2]:
            for fam in (['gauss', 'heavy', 'corr', 'far', 'outliers', 'tiny', 'vast', 'near'] + (['scaled', 'small', 'big', 'same'] if th else [])):
                out.append(('fit', a, b, df, fam))
        if a*b <= 9:
            out += [('equivariance', a, b, df) for df in (3, 10)]
    for n in (5, 6, 7, 8) if th else (7,):
        m = len(list(itertools.combinations(range(9), n)))
        out += [('subsets', n, lo, hi) for lo, hi in data.chunks(m, 6)]
    return out


def skip(ctx):
    ctx.notes['skipped_no_fast_convergence'] = ctx.notes.get('skipped_no_fast_convergence', 0) + 1


def run_unit(ctx, what, *u):
    if what == 'gradient':
        a, b, df = u
        for N, (ln, loc) in itertools.product((1, 5), locations(a*b)):
            X = data.gauss(N, a*b, True, 2, 'corr')
            for i, j in ((0, 0), (1, 2), (2, 3), (3, 1), (4, 4), (2, 0)):
                ctx.run('gradient %dx%d df=%g N=%d location %s factors %d %d' % (a, b, df, N, ln, i, j), gradient, ctx, X, a, b, df, loc, factor(a, i), factor(b, j), X=X)
    elif what == 'fit':
        a, b, df, fam = u
        for N, centred, (iname, init) in itertools.product(sorted({3*max(a, b) + 2, 2*a*b + 1} | ({150} if fam == 'heavy' and a*b < 10 else set()) | ({1100} if fam == 'gauss' and a*b == 6 and df in (3, 1) else set())), (True, False), inits(a, b)):
            if a*b >= 12 and not ctx.thorough and iname != ('default' if centred else 'given'):
                continue
            if fam not in ('gauss', 'heavy', 'corr') and not ctx.thorough and (N != 2*a*b + 1 or iname not in ('default', 'far')):
                continue
            X = data.gauss(N, a*b, True, 1, fam)
            if not centred:
                X = X + 3*np.exp(1j*np.arange(a*b))
            want = flipflop(X, a, b, df, 0 if centred else X.mean(0))
            if want is None:
                skip(ctx)
                continue
            ctx.run('fit %dx%d df=%g N=%d %s %s start %s' % (a, b, df, N, fam, 'centred' if centred else 'mean', iname), fit, ctx, X, a, b, df, centred, init, want, X=X)
    elif what == 'subsets':
        n, lo, hi = u
        L = letters()
        for idx in list(itertools.combinations(range(9), n))[lo:hi]:
            X = np.array([L[i] for i in idx])
            for df, centred in ((3, True), (8, False)):
                want = flipflop(X, 2, 2, df, 0 if centred else X.mean(0))
                if want is None:
                    skip(ctx)
                    continue
                ctx.run('letters %s df=%g %s' % (''.join(map(str, idx)), df, centred), fit, ctx, X, 2, 2, df, centred, None, want, X=X)
    else:
        a, b, df = u
        for centred in (True, False):
            X = data.gauss(4*a*b, a*b, True, 1, 'heavy')
            ctx.run('equivariance %dx%d df=%g %s' % (a, b, df, centred), equivariance, ctx, X, a, b, df, centred, X=X)
