"""C02: the reference iteration is computed step by step; the real estimator is
then stopped at every iteration number and at a tolerance between every two
consecutive relative changes, and must return exactly that iterate, that change
and that count, log the exhaustion of iter_max and be unaffected by the display."""
import numpy as np

from mc import core, data, est, ref
from robuststats.estimation import covariance as cov, structured as struct
from robuststats.models.mappings import covariancetoreal  # noqa: F401

BOUNDS = {
    'quick': 'real/complex Tyler, Student, Huber and Kronecker MM; 7 data sizes x 5 families (p<=9), (p, N) = (2, 1030), (3, 2050), (35, 80) x starts (identity-like, dense, tiny, huge, badly conditioned, integer); all stopping points k=0..12 '
             'by iter_max, every tolerance interval of the first 12 changes, tolerances equal to a change (0 at exact fixed points included), documented defaults, slow problems exceeding the default limits, '
             'functional and class forms, display on and off',
    'thorough': 'as quick with 11 sizes x 6 families, all parameters and starts and k=0..40',
}
RULE = 'a case is (problem, stopping rule); its expected stop, change and iterate come from the reference iteration'

SIZES = [(1, 5), (2, 3), (2, 8), (3, 5), (3, 20), (5, 12), (9, 30)]
SIZES_T = SIZES + [(4, 9), (6, 61), (2, 200), (12, 26)]
MM = [(1, 2, 6), (2, 1, 5), (2, 2, 9), (2, 3, 14), (3, 2, 10), (3, 3, 25)]


def plan(tier):
    th = tier == 'thorough'
    fams = ('gauss', 'corr', 'heavy', 'outliers', 'near') + (('scaled', 'small', 'big') if th else ())
    units = []
    for cplx in (False, True):
        for p, N in (SIZES_T if th else SIZES):
            for fam in fams:
                for kind in ('tyler', 'student', 'huber'):
                    units.append(('fp', kind, cplx, p, N, fam))
        for p, N in ((2, 1030), (3, 2050), (35, 80)):
            for kind in ('tyler', 'student', 'huber'):
                units.append(('fp', kind, cplx, p, N, 'gauss'))
    for a, b, N in MM + ([(4, 2, 30), (1, 5, 12)] if th else []):
        for fam in fams:
            units.append(('mm', a, b, N, fam))
    for cplx in (False, True):
        for kind in ('tyler', 'student', 'huber'):
            for p in (1, 2, 3):
                units.append(('tie', kind, cplx, p))
    units += [('mm tie', a, b) for a, b in ((1, 1), (1, 2), (2, 2), (2, 3))]
    return units


NORMS = [None, 'None', 'trace', 'determinant', 'element']


def expect(ds, tol, iter_max):
    """index of the iterate at which the iteration stops; None if it is decided
    by rounding or lies beyond the reference run"""
    for k in range(len(ds)):
        if k > 0 and abs(ds[k] - tol) <= 1e-7*tol + 1e-13:
            return None
        if k > 0 and ds[k] < 1e-11 and tol < 1e-10:
            return None
        if ds[k] <= tol or k >= iter_max:
            return k
    return None


def tolerances(ds, top):
    out = []
    for k in range(1, min(top, len(ds) - 1)):
        a, b = ds[k], ds[k+1]
        if min(a, b) > 1e-9 and abs(a - b) > 1e-5*max(a, b):
            out.append(np.sqrt(a*b))
    return out


def exhausted(recs, mm=False):
    """a record at warning level or above, those about a start being overwritten aside
    (the Kronecker algorithm may report at a lower level)"""
    return any('overwr' not in m.lower() and (lev in ('WARNING', 'ERROR', 'CRITICAL') or mm and 'converge' in m.lower()) for lev, m in recs)


def check_log(ctx, recs, k, d, tol, iter_max, mm=False):
    if k < iter_max:
        ctx.ok(not exhausted(recs, mm), 'reported as not converged although it stopped before iter_max', recs)
    elif d > tol:
        ctx.ok(exhausted(recs, mm), 'iter_max exhausted without a log record', recs)


def one_stop(ctx, kind, par, X, init, how, Ss, ds, k, tol, iter_max):
    kw = {}
    if init is not None:
        kw['init'] = init
    if kind == 'tyler' and how is not None:
        kw['normalisation'] = how
    if tol is not None:
        kw['tol'] = tol
    if iter_max is not None:
        kw['iter_max'] = iter_max
    results = []
    for verb in (False, True):
        with core.capture_logs() as c:
            S, d, it = est.call(kind, par, X, verbosity=verb, **kw)
        ctx.step(k)
        results.append((S, d, it))
        ctx.ok(it == k, 'number of iterations', it, k)
        want = ref.normalise(Ss[k], how) if kind == 'tyler' else Ss[k]
        ctx.close(S, want, 1e-8, 'returned iterate %d' % k)
        if k == 0:
            ctx.ok(not np.isfinite(d) or d >= 0, 'change without iteration', d)
        else:
            ctx.close(d, ds[k], 1e-5 + 1e-11/max(ds[k], 1e-12), 'returned change')
        check_log(ctx, c.records, k, ds[k], 1e-4 if tol is None else tol, 30 if iter_max is None else iter_max)
    ctx.ok(core.same(results[0], results[1]), 'verbosity changes the result', results)
    ctx.see(S, it)
    # class form
    ckw = {k_: v for k_, v in kw.items() if k_ != 'init'}
    if iter_max is None or tol is None:
        return
    outs = []
    for verb in (False, True):
        with core.capture_logs() as c:
            e = est.make(kind, par, np.iscomplexobj(X), verbosity=verb, **ckw)
            if init is None:
                e.fit(X)
            else:
                e.fit(X, init=init)
        ctx.step(k)
        ctx.ok(e.iteration_ == it, 'iteration_ of the class', e.iteration_, it)
        ctx.close(e.covariance_, S, 1e-9, 'covariance_ of the class')
        if k:
            ctx.close(e.err_, d, 1e-6 + 1e-12/max(ds[k], 1e-13), 'err_ of the class')
        check_log(ctx, c.records, k, ds[k], tol, iter_max)
        outs.append((e.covariance_, e.err_, e.iteration_))
    ctx.ok(core.same(outs[0], outs[1]), 'verbosity changes the result of the class', outs)
    ctx.trace()


def class_defaults(ctx, kind, par, X, Ss, ds):
    k = expect(ds, 1e-4, 100)
    if k is None:
        return
    with core.capture_logs() as c:
        e = est.make(kind, par, np.iscomplexobj(X)).fit(X)
    ctx.step(k)
    ctx.ok(e.iteration_ == k, 'iterations of a class with default limits (tol 1e-4, iter_max 100)', e.iteration_, k)
    ctx.close(e.covariance_, Ss[k], 1e-8, 'default class estimate')
    ctx.close(e.err_, ds[k], 1e-5 + 1e-11/max(ds[k], 1e-16), 'default class err_')
    check_log(ctx, c.records, k, ds[k], 1e-4, 100)


def mean_geo(A, M):
    R = ref.funm(A, np.sqrt)
    Ri = ref.funm(A, lambda w: w**-0.5)
    T = Ri @ M @ Ri
    return R @ ref.funm((T + T.conj().T)/2, np.sqrt) @ R


def mm_run(X, a, b, K):
    N = len(X)
    A, B = np.eye(a, dtype=X.dtype), np.eye(b, dtype=X.dtype)
    out, ds = [(A, B)], [np.inf]
    M = [X[i].reshape(a, b) for i in range(N)]     # x = sum_i M[i,j] e_i kron f_j
    for _ in range(K):
        iA, iB = np.linalg.inv(A), np.linalg.inv(B)
        Ni = [m @ iB.T @ m.conj().T for m in M]
        MA = a/N*sum(n/np.real(np.trace(iA @ n)) for n in Ni)
        A2 = mean_geo(A, MA)
        iA = np.linalg.inv(A2)
        MB = b/N*sum(m.T @ iA.T @ m.conj()/np.real(np.trace(iA @ n)) for m, n in zip(M, Ni))
        B2 = mean_geo(B, MB)
        ds.append(max(np.linalg.norm(A2 - A)/np.linalg.norm(A), np.linalg.norm(B2 - B)/np.linalg.norm(B)))
        A, B = A2, B2
        out.append((A, B))
    return out, ds


def mm_stop(ctx, X, a, b, its, ds, k, tol, iter_max):
    outs = []
    for verb in (False, True):
        kw = {}
        if tol is not None:
            kw['tol'] = tol
        if iter_max is not None:
            kw['iter_max'] = iter_max
        with core.capture_logs() as c:
            A, B, d, it = struct.estimation_cov_kronecker_MM(X, a, b, verbosity=verb, **kw)
        ctx.step(k)
        ctx.ok(it == k, 'number of iterations', it, k)
        ctx.close(np.kron(A, B), np.kron(*its[k]), 1e-6, 'returned iterate %d' % k)
        ctx.close(A, its[k][0], 1e-6, 'returned factor A')
        if k:
            ctx.close(d, ds[k], 1e-4 + 1e-9/max(ds[k], 1e-12), 'returned change')
        check_log(ctx, c.records, k, ds[k], .001 if tol is None else tol, 30 if iter_max is None else iter_max, True)
        outs.append((A, B, d, it))
    ctx.ok(core.same(outs[0], outs[1]), 'verbosity changes the result', outs)
    ctx.see(A, B, it)
    if tol is not None and iter_max is not None:
        cs = []
        for verb in (False, True):
            e = struct.KroneckerEllipticalMM(a, b, tol, iter_max, verbosity=verb).fit(X)
            ctx.step(k)
            ctx.close(e.covariance_, np.kron(A, B), 1e-9, 'covariance_ of the class')
            cs.append((e.A_, e.B_, e.covariance_))
        ctx.ok(core.same(cs[0], cs[1]), 'verbosity changes the class result')
        ctx.trace()


def ties(ctx, call, K):
    """tolerances that equal a change exactly (changes as reported by the code itself)"""
    ds, out = [np.inf], [None]
    for k in range(1, K + 1):
        S, d, it = call(-1., k)
        ctx.step(k)
        ctx.ok(it == k, 'a negative tolerance is never reached', it, k)
        ds.append(d)
        out.append(S)
    for tol in sorted(set(ds[1:] + [0.])):
        k = next((j for j in range(1, K + 1) if ds[j] <= tol), K)
        S, d, it = call(tol, K)
        ctx.step(k)
        ctx.ok(it == k, 'stop at a change equal to tol=%g' % tol, it, k, ds)
        ctx.ok(d == ds[k], 'change at a tie', d, ds[k])
        ctx.same(S, out[k], 'iterate at a tie')
    ctx.see(ds)
    ctx.trace()


def exact_sets(p, cplx):
    """data sets on which iterations reach their fixed point exactly"""
    E = np.eye(p, dtype=complex if cplx else float)
    yield 'axes', np.concatenate([E, -E])
    yield 'ones', np.concatenate([E, E])*(1j if cplx else 2)
    if p == 1:
        yield 'one', 3*E


def run_unit(ctx, what, *u):
    K = 40 if ctx.thorough else 12
    if what == 'tie':
        kind, cplx, p = u
        todo = list(exact_sets(p, cplx)) + [('gauss', data.gauss(3*p + 4, p, cplx)), ('corr', data.gauss(2*p + 3, p, cplx, 1, 'corr'))]
        for par in est.PARS[kind]:
            for name, X in todo:
                for verb in (False, True):
                    for init in (None, data.spd(p, cplx, 'eye'), data.spd(p, cplx, 'diag')):
                        kw = {} if init is None else dict(init=init)

                        def call(tol, it):
                            return est.call(kind, par, X, tol=tol, iter_max=it, verbosity=verb, **kw)

                        def fitted(tol, it):
                            e = est.make(kind, par, cplx, tol=tol, iter_max=it, verbosity=verb).fit(X, **kw)
                            return e.covariance_, e.err_, e.iteration_
                        tag = 'ties %s %s %s %s p%d init %s verbose %s' % (kind, par, name, cplx, p, None if init is None else init[-1, -1], verb)
                        ctx.run(tag, ties, ctx, call, 2*K, X=X)
                        ctx.run(tag + ' class', ties, ctx, fitted, K, X=X)
        return
    if what == 'mm tie':
        a, b = u
        E = np.eye(a*b, dtype=complex)
        for name, X in (('axes', np.concatenate([E, -E])), ('gauss', data.gauss(3*a*b + 4, a*b, True))):
            for verb in (False, True):
                def call(tol, it):
                    A, B, d, n = struct.estimation_cov_kronecker_MM(X, a, b, tol=tol, iter_max=it, verbosity=verb)
                    return np.kron(A, B), d, n
                ctx.run('ties mm %dx%d %s verbose %s' % (a, b, name, verb), ties, ctx, call, K, X=X)
        return
    if what == 'mm':
        a, b, N, fam = u
        X = data.gauss(N, a*b, True, 0, fam)
        its, ds = mm_run(X, a, b, 110)
        tag = 'mm %dx%d N%d %s' % (a, b, N, fam)
        for k in range(K + 1):
            if expect(ds, 1e-12, k) == k:
                ctx.run('%s iter_max=%d' % (tag, k), mm_stop, ctx, X, a, b, its, ds, k, 1e-12, k, X=X)
        for tol in tolerances(ds, K):
            k = expect(ds, tol, 200)
            if k is not None:
                ctx.run('%s tol=%.4g' % (tag, tol), mm_stop, ctx, X, a, b, its, ds, k, tol, 200, X=X)
        k = expect(ds, .001, 30)
        if k is not None:
            ctx.run('%s defaults' % tag, mm_stop, ctx, X, a, b, its, ds, k, None, None, X=X)
        k = expect(ds, 1e-4, 100)

        def cdef():
            e = struct.KroneckerEllipticalMM(a, b).fit(X)
            ctx.close(e.covariance_, np.kron(*its[k]), 1e-6, 'class with default limits (tol 1e-4, iter_max 100)')
        if k is not None:
            ctx.run('%s class defaults' % tag, cdef)
        return
    kind, cplx, p, N, fam = u
    X = data.gauss(N, p, cplx, 0, fam)
    pars = est.PARS[kind] if ctx.thorough else est.PARS[kind][:2]
    if fam == 'outliers':
        pars = {'tyler': [None], 'student': [0.1, 1e4], 'huber': [0.999, 0.02]}[kind]
    for par in pars:
        starts = (None, 'dense', 'diag') if ctx.thorough else (None, 'dense')
        if par == pars[-1] and (ctx.thorough or fam == 'gauss'):
            starts += ('tiny', 'huge', 'wide', 'int')
        for start in starts:
            init = None if start is None else np.eye(p, dtype=int) + 1 if start == 'int' else data.spd(p, cplx, start)
            Ss, ds = ref.run(kind, par, X, ref.scm(X) if init is None else init, 130)
            tag = '%s %s p%d N%d %s %s start=%s' % ('complex' if cplx else 'real', kind, p, N, fam, par, start)
            hows = NORMS if kind == 'tyler' else [None]
            for k in range(K + 1):
                if expect(ds, 1e-12, k) == k:
                    how = hows[k % len(hows)]
                    ctx.run('%s iter_max=%d %s' % (tag, k, how), one_stop, ctx, kind, par, X, init, how, Ss, ds, k, 1e-12, k, X=X)
            for i, tol in enumerate(tolerances(ds, K)):
                k = expect(ds, tol, 300)
                how = hows[i % len(hows)]
                if k is not None:
                    ctx.run('%s tol=%.4g %s' % (tag, tol, how), one_stop, ctx, kind, par, X, init, how, Ss, ds, k, tol, 300, X=X)
            k = expect(ds, 1e-4, 30)
            if k is not None:
                ctx.run('%s defaults' % tag, one_stop, ctx, kind, par, X, init, None, Ss, ds, k, None, None, X=X)
            if start is None:
                ctx.run('%s class defaults' % tag, class_defaults, ctx, kind, par, X, Ss, ds)
