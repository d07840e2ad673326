"""C27: every object of the package is copied by every means (deep copy, pickle protocols,
joblib files) at every point of every operation history up to a depth; the original and
the copy then continue with every pair of continuations, and each must give the results
of a never copied object with its own history.  Besides, scikit-learn's clone, pipelines,
cross validation and grid search are compared with the plain loops they stand for."""
import copy
import io
import itertools
import pickle

import joblib
import numpy as np
from sklearn.base import clone
from sklearn.model_selection import GridSearchCV, KFold, cross_val_score
from sklearn.pipeline import Pipeline, make_pipeline
from sklearn.preprocessing import FunctionTransformer

from mc import core, data, est
from mc.c09 import direction
from robuststats.estimation import base, structured as struct
from robuststats.models import manifolds as man, probability as prob
from robuststats.online.estimation import StochasticGradientCovarianceEstimator

BOUNDS = {
    'quick': '48 objects (estimators, Kronecker and online estimators, transformers, pipelines, feature arrays, manifolds and products, tangent vectors, generic and frozen laws with '
             'every kind of random state) x 5 kinds of copies x all histories of <= 2 operations before the copy (1 for slow objects and for some kinds of copies), all pairs of an operation of the original and '
             'one (after short histories two) of the copy in both orders; '
             'copies of copies; worker processes; clone/pipeline/cross_val_score/grid search for 11 estimators',
    'thorough': '<= 3 operations before the copy (slow objects 2)',
}
RULE = 'a state is (object, history, kind of copy, continuations)'
LIMIT = {'quick': 400., 'thorough': 3000.}
HOW = ['deepcopy', 'pickle 2', 'pickle 5', 'joblib', 'joblib compressed']


def transport(o, how):
    if how == 'deepcopy':
        return copy.deepcopy(o)
    if how.startswith('pickle'):
        return pickle.loads(pickle.dumps(o, protocol=int(how[-1])))
    f = io.BytesIO()
    joblib.dump(o, f, compress=3 if 'compressed' in how else 0)
    f.seek(0)
    return joblib.load(f)


def seeded(f):
    def g(o):
        state = np.random.get_state()
        np.random.seed(11)
        try:
            return f(o)
        finally:
            np.random.set_state(state)
    return g


# -- objects: name -> (constructor, operations, slow?) ---------------------------
X2 = {c: [data.gauss(9, 2, c, 0, 'corr'), data.gauss(7, 2, c, 1, 'heavy')] for c in (False, True)}
X4 = [data.gauss(15, 4, True, 0, 'corr'), data.gauss(12, 4, True, 1, 'heavy')]


def results(e):
    out = [type(e).__name__]
    for k in sorted(vars(e)):
        if k.endswith('_') and not k.startswith('_'):
            v = getattr(e, k)
            out += [k, v]
    return out


def summaries(e, X, score):
    if getattr(e, 'covariance_', None) is None:
        return 'not fitted'
    out = [e.get_precision(), e.mahalanobis(X), e.error_norm(np.eye(X.shape[1])), e.error_norm(np.eye(X.shape[1]), norm='spectral')]
    if score:
        out.append(e.score(X))
    return out


def fitter(X, **kw):
    def f(e):
        e.fit(X, **kw)
        return results(e)
    return f


def setter(**kw):
    def f(e):
        e.set_params(**kw)
        return sorted((k, v) for k, v in e.get_params().items() if isinstance(v, (int, float, str, bool)))
    return f


def estimators():
    for c in (False, True):
        A, B = X2[c]
        for kind, par, change in (('tyler', None, dict(normalisation='trace')), ('tyler', None, dict(method='natural gradient')),
                                  ('student', 3, dict(df=0.8)), ('huber', 0.9, dict(q=0.3))):
            ops = [('fit A', fitter(A)), ('fit B from', fitter(B, init=data.spd(2, c, 'dense'))), ('set', setter(**change)),
                   ('use', lambda e, A=A, k=kind: summaries(e, A, k != 'huber'))]
            slow = 'method' in change
            if slow:
                ops = [(n, seeded(f)) for n, f in ops]
            yield '%s %s %s' % (kind, c, sorted(change)), lambda kind=kind, par=par, c=c: est.make(kind, par, c, tol=1e-6), ops, slow
        cls = base.ComplexEmpiricalCovariance if c else base.RealEmpiricalCovariance
        yield 'empirical %s' % c, cls, [('fit A', fitter(A)), ('fit B', fitter(B + 1)), ('set', setter(assume_centered=True)),
                                        ('no precision', setter(store_precision=False)), ('use', lambda e, A=A: summaries(e, A, True))], False
    yield 'kronecker', lambda: struct.KroneckerEllipticalMM(2, 2, tol=1e-3), [
        ('fit A', fitter(X4[0])), ('fit B', fitter(X4[1])), ('set', setter(iter_max=2)), ('use', lambda e: summaries(e, X4[0], False))], True
    yield 'kronecker student', lambda: struct.KroneckerStudent(2, 2, 3), [
        ('fit A', fitter(X4[0])), ('set', setter(df=9)), ('use', lambda e: summaries(e, X4[0], True))], True

    def start(S):
        def f(e):
            e.set_estimate(S)
            return results(e)
        return f

    def update(x, rule):
        def f(e):
            e.update(x, rule)
            return results(e)
        return f
    A = X2[True][0]
    yield 'online', lambda: StochasticGradientCovarianceEstimator(man.HermitianPositiveDefinite(2), direction, 0.2), [
        ('start', start(data.spd(2, True, 'dense'))), ('update 0', update(A[:1], 'inverse iteration')), ('update 1', update(A[1:2], 'inverse iteration')),
        ('constant', update(A[2:3], 'constant')), ('fit', fitter(A, init=np.eye(2, dtype=complex))), ('set', setter(lrate=0.05)), ('use', lambda e: summaries(e, A, True))], False


def batch(T, X):
    r = T.fit_transform(X)
    return list(r.export()) if isinstance(r, base._FeatureArray) else r


def transformers():
    X = np.stack([data.gauss(7, 2, True, i) for i in range(3)])
    for jobs in (1, 2):
        for cls in (base.CovariancesEstimation, base.FeaturesEstimation):
            def run(T, X):
                with joblib.parallel_config(backend='threading'):
                    r = T.transform(X)
                return [r.export(), r.vectorize()] if isinstance(r, base._FeatureArray) else r
            yield '%s %d jobs' % (cls.__name__, jobs), lambda cls=cls, jobs=jobs: cls(est.make('student', 3, True), n_jobs=jobs), [
                ('transform', lambda T, run=run: run(T, X)), ('two', lambda T, run=run: run(T, X[1:])),
                ('set', setter(estimator__df=1)), ('jobs', setter(n_jobs=1))] + [('fit', lambda T: type(T.fit(X)).__name__)]*(jobs == 1), jobs == 2
    yield 'pipeline', lambda: make_pipeline(base.CovariancesEstimation(est.make('tyler', None, True, normalisation='trace'))), [
        ('transform', lambda P: P.fit_transform(X)), ('set', setter(covariancesestimation__estimator__normalisation='determinant'))], False


def arrays():
    def herm(n, i):
        return data.spd(2, True, 'dense')*(i + 1. + np.arange(n))[:, None, None]

    def read(f):
        out = [len(f), str(f.shape), str(f.dtype), f.nb_manifolds]
        if len(f):
            out += [f.export(), f.vectorize(), f[0].export(), f[-1].vectorize(), f[1:].export() if len(f) > 1 else 0] + ([repr(f), str(f)] if len(f) < 50 else [])
        return out

    def appender(*parts):
        def f(a):
            a.append([p.copy() for p in parts])
            return [len(a), a.vectorize()[-3:]]
        return f

    def itself(a):
        if len(a):
            a.append(a)
        return len(a)

    def reject(a):
        try:
            a.append([np.zeros(3), np.zeros((2, 5)), np.zeros(1)])
        except Exception as e:
            return type(e).__name__
        return 'accepted'

    def empty(shape):
        return base._FeatureArray(*shape)

    def filled(n):
        def f():
            a = base._FeatureArray((2, 2), (3,))
            a.append([herm(n, 0), np.arange(3.*n).reshape(n, 3)])
            return a
        return f

    def part():
        return filled(6)()[2:5]
    one = (herm(1, 3)[0], np.arange(3.))
    ops = [('append', appender(*one)), ('append two', appender(herm(2, 7), np.ones((2, 3)))), ('itself', itself), ('reject', reject), ('read', read)]
    yield 'feature array', lambda: empty(((2, 2), (3,))), ops, False
    for n in (1, 2, 999, 1000):
        yield 'feature array of %d' % n, filled(n), ops + [('chunk', appender(herm(1000, 1), np.ones((1000, 3))))]*(n > 2), n > 2
    yield 'part of a feature array', part, ops, False
    yield 'vectors', lambda: empty(((2,),)), [('append', appender(np.array([1., 2]))), ('chunk', appender(np.ones((4, 2)))), ('itself', itself), ('reject', reject), ('read', read)], False


def flat(v):
    """nested points as lists of arrays"""
    return [flat(w) for w in v] if isinstance(v, (list, tuple)) else np.asarray(v)


def manifolds():
    cases = [('spv', lambda: man.StrictlyPositiveVectors(3)), ('spv 2', lambda: man.StrictlyPositiveVectors(2, 2)),
             ('hpd', lambda: man.HermitianPositiveDefinite(2)), ('hpd 3', lambda: man.HermitianPositiveDefinite(2, 3)),
             ('shpd', lambda: man.SpecialHermitianPositiveDefinite(2)), ('shpd 2', lambda: man.SpecialHermitianPositiveDefinite(2, 2)),
             ('product', lambda: man.WeightedProduct((man.HermitianPositiveDefinite(2), man.StrictlyPositiveVectors(2)), (2., 0.5))),
             ('elliptical', lambda: man.KroneckerHermitianPositiveElliptical(2, 2, 0.7))]
    for name, mk in cases:
        def draw(M):
            x, y = M.rand(), M.rand()
            return x, y, M.randvec(x)

        def geometry(M):
            x, y, u = draw(M)
            out = [M.inner(x, u, u), M.norm(x, u), M.dist(x, y), flat(M.exp(x, u)), flat(M.log(x, y)), flat(M.retr(x, u)), flat(M.transp(x, y, u)), flat(M.zerovec(x))]
            return out

        def gradients(M):
            x, y, u = draw(M)
            return [flat(M.egrad2rgrad(x, y)), flat(M.proj(x, u))]

        def facts(M):
            try:
                d = M.typicaldist
            except NotImplementedError:
                d = None
            return [str(M), M.dim, d]
        yield 'manifold ' + name, mk, [('geometry', seeded(geometry)), ('gradients', seeded(gradients)), ('facts', facts), ('points', seeded(lambda M: [flat(p) for p in draw(M)]))], False
    for name, mk in cases[-2:] + cases[2:3]:
        # points and tangent vectors themselves
        def mkvec(mk=mk):
            M = mk()
            return seeded(lambda _: M.randvec(M.rand()))(0)

        def scale(v):
            return flat(2*v - v)

        def double(v):
            return flat(v + v)

        def combined(v, mk=mk):
            M = mk()
            return seeded(lambda _: [M.norm(M.rand(), v)])(0)
        yield 'tangent vector of ' + name, mkvec, [('scale', scale), ('double', double), ('norm', combined)], False


def laws():
    S = data.spd(2, True, 'dense')
    m = np.array([1 + 1j, -2.])
    x = data.gauss(3, 2, True, 4)
    seeds = [('None', lambda: None), ('RandomState', lambda: np.random.RandomState(4)), ('Generator', lambda: np.random.default_rng(3))]
    for sname, seed in seeds:
        for law, gen in (('normal', prob.complex_multivariate_normal_gen), ('t', prob.complex_multivariate_t_gen)):
            more = [4.] if law == 't' else []

            def reseed(o):
                o.random_state = np.random.RandomState(9)
                return 'reseeded'

            def ops_of(frozen, law=law, more=more, sname=sname):
                a = (lambda o: ()) if frozen else (lambda o: (m, S, *more))
                out = [('rvs', seeded(lambda o: o.rvs(*a(o), size=3))), ('one', seeded(lambda o: o.rvs(*a(o)))),
                       ('logpdf', lambda o: o.logpdf(x, *a(o))), ('pdf', lambda o: o.pdf(x[0], *a(o)))]
                if sname == 'None':         # draws come from the global state then
                    out = out[2:]
                if law == 'normal':
                    out.append(('entropy', lambda o: o.entropy(*([] if frozen else [m, S]))))
                if not frozen:
                    out += [('reseed', reseed), ('own', seeded(lambda o: o.rvs(*a(o), size=2, random_state=8))),
                            ('frozen', seeded(lambda o: o(*a(o), seed=2).rvs(2)))]
                return out
            yield '%s law, seed %s' % (law, sname), lambda gen=gen, seed=seed: gen(seed()), ops_of(False), False
            yield 'frozen %s law, seed %s' % (law, sname), lambda gen=gen, seed=seed, more=more: gen()(m, S, *more, seed=seed()), ops_of(True), False


OBJECTS = [list(g()) for g in (estimators, transformers, arrays, manifolds, laws)]
OBJECTS = [o for g in OBJECTS for o in g]


def alike(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, np.generic, float, complex)) and isinstance(b, (np.ndarray, np.generic, float, complex)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in 'fc':
            fa, fb = np.isfinite(a), np.isfinite(b)
            if not np.array_equal(fa, fb) or not np.array_equal(a[~fa], b[~fb], equal_nan=True):
                return False
            s = np.max(np.abs(b[fb]), initial=0)
            return bool(np.all(np.abs(a[fa] - b[fb]) <= 1e-9*s))
        return np.array_equal(a, b)
    return a == b


class Straight:
    """results of never copied objects, by history"""

    def __init__(self, mk, ops):
        self.mk, self.ops, self.known = mk, ops, {}

    def result(self, hist):
        if hist not in self.known:
            o = self.mk()
            for i in hist:
                r = self.ops[i][1](o)
            self.known[hist] = r
        return self.known[hist]


def play(ctx, st, o, hist, more, who):
    for i in more:
        r = st.ops[i][1](o)
        ctx.step()
        hist = hist + (i,)
        want = st.result(hist)
        if not alike(r, want):
            ctx.ok(False, '%s after %s' % (who, ', '.join(st.ops[j][0] for j in hist)), r, want)
        ctx.checks += 1
        for v in (r if isinstance(r, list) else [r])[:3]:
            if isinstance(v, (np.ndarray, float)):
                ctx.see(v)
    return hist


def one(ctx, st, hist, how, left, right, order):
    o = st.mk()
    play(ctx, st, o, (), hist, 'object')
    c = transport(o, how)
    ctx.ok(type(c) is type(o) and c is not o, 'the copy has another type', type(c))
    if order:
        play(ctx, st, o, hist, left, 'original (%s taken)' % how)
    play(ctx, st, c, hist, right, '%s copy' % how)
    if not order:
        play(ctx, st, o, hist, left, 'original (%s taken)' % how)
    ctx.trace()


def again(ctx, st, hist, hows, cont):
    """a copy of a copy"""
    o = st.mk()
    play(ctx, st, o, (), hist, 'object')
    for how in hows:
        o = transport(o, how)
    play(ctx, st, o, hist, cont, 'copy of a copy (%s)' % ', '.join(hows))
    ctx.trace()


def in_worker(o, i, k):
    return OBJECTS[i][2][k][1](o)


def worker(ctx, i, hist):
    """operations in other processes on objects sent there"""
    st = Straight(*OBJECTS[i][1:3])
    o = st.mk()
    play(ctx, st, o, (), hist, 'object')
    n = len(st.ops)
    got = joblib.Parallel(n_jobs=2)(joblib.delayed(in_worker)(o, i, k) for k in range(n))
    ctx.step(n)
    for k in range(n):
        ctx.ok(alike(got[k], st.result(hist + (k,))), 'in another process: %s' % st.ops[k][0], got[k], st.result(hist + (k,)))
    play(ctx, st, o, hist, (0,), 'object sent to other processes')


META = [(k, c) for c in (False, True) for k in ('tyler', 'student', 'empirical', 'centred')] + [('kron', True), ('krons', True)]


def make(kind, c):
    if kind == 'kron':
        return struct.KroneckerEllipticalMM(2, 2)
    if kind == 'krons':
        return struct.KroneckerStudent(2, 2, 3)
    if kind in ('empirical', 'centred'):
        return (base.ComplexEmpiricalCovariance if c else base.RealEmpiricalCovariance)(assume_centered=kind == 'centred')
    return est.make(kind, est.PARS[kind][0] or None, c, tol=1e-7, **({} if kind != 'student' else {}))


GRIDS = {'tyler': ('normalisation', ['None', 'trace', 'determinant']), 'student': ('df', [0.5, 3, 40]), 'empirical': ('assume_centered', [True, False]),
         'centred': ('store_precision', [True, False]), 'kron': ('iter_max', [1, 30]), 'krons': ('df', [2, 20])}


def meta(ctx, kind, c, jobs):
    p = 4 if kind.startswith('kron') else 2
    X = data.gauss(24, p, c, 3, 'corr')
    x0 = X.copy()
    e = make(kind, c)
    before = sorted(map(str, e.get_params().items()))
    cv = KFold(3)
    folds = list(cv.split(X))
    # cross validation
    want = []
    for tr, te in folds:
        want.append(make(kind, c).fit(X[tr]).score(X[te]))
    with joblib.parallel_config(backend='threading'):
        got = cross_val_score(e, X, cv=cv, n_jobs=jobs, error_score='raise')
    ctx.step(3)
    ctx.close(got, np.array(want), 1e-8, 'cross_val_score')
    # grid search
    name, values = GRIDS[kind]
    with joblib.parallel_config(backend='threading'):
        gs = GridSearchCV(e, {name: values}, cv=cv, n_jobs=jobs, error_score='raise').fit(X)
    table = np.array([[make(kind, c).set_params(**{name: v}).fit(X[tr]).score(X[te]) for tr, te in folds] for v in values])
    ctx.step(6*len(values))
    ctx.close(gs.cv_results_['mean_test_score'], table.mean(1), 1e-8, 'scores of the grid search')
    top = table.mean(1)
    ctx.ok(top[values.index(gs.best_params_[name])] >= np.max(top) - 1e-8*np.max(np.abs(top)), 'parameter chosen by the grid search', gs.best_params_)
    final = make(kind, c).set_params(**gs.best_params_).fit(X)
    ctx.close(gs.best_estimator_.covariance_, final.covariance_, 1e-9, 'refitted estimator of the grid search')
    ctx.close(gs.score(X), final.score(X), 1e-9, 'score of the grid search')
    # pipelines
    P = Pipeline([('first', FunctionTransformer(lambda Z: 2*Z)), ('cov', make(kind, c))])
    P.fit(X)
    ctx.close(P.score(X), make(kind, c).fit(2*X).score(2*X), 1e-9, 'pipeline')
    if hasattr(e, 'transform'):
        ctx.close(P.transform(X), make(kind, c).fit(2*X).covariance_, 1e-9, 'transform of a pipeline')
    Q = clone(P)
    ctx.ok(not hasattr(Q.named_steps['cov'], 'covariance_'), 'clone of a pipeline is fitted')
    Q.set_params(**{'cov__' + name: values[-1]}).fit(X)
    ctx.close(Q.named_steps['cov'].covariance_, make(kind, c).set_params(**{name: values[-1]}).fit(2*X).covariance_, 1e-9, 'parameter set through a pipeline')
    ctx.close(P.named_steps['cov'].covariance_, make(kind, c).fit(2*X).covariance_, 1e-9, 'pipeline after its clone was used')
    # batch transformers in a pipeline
    T = np.stack([data.gauss(4*p + 3, p, c, i) for i in range(4)])
    vec = make_pipeline(base.FeaturesEstimation(make(kind, c), n_jobs=jobs), FunctionTransformer(lambda f: f.vectorize()))
    want = np.stack([make(kind, c).fit(t).covariance_[np.triu_indices(p)] for t in T])
    with joblib.parallel_config(backend='threading'):
        ctx.close(vec.fit_transform(T), want, 1e-8, 'pipeline of vectorised features')
        V = clone(vec).set_params(**{'featuresestimation__estimator__' + name: values[0]})
        ctx.close(V.fit_transform(T), np.stack([make(kind, c).set_params(**{name: values[0]}).fit(t).covariance_[np.triu_indices(p)] for t in T]), 1e-8,
                  'nested parameter of a pipeline')
        ctx.close(vec.fit_transform(T), want, 1e-8, 'pipeline after its clone was used')
    ctx.ok(sorted(map(str, e.get_params().items())) == before and not hasattr(e, 'covariance_'), 'the estimator handed over was changed')
    ctx.same(X, x0, 'the data were changed')
    ctx.see(top)
    ctx.trace()


def plan(tier):
    units = [('obj', i, h) for i in range(len(OBJECTS)) for h in range(len(HOW))]
    units.sort(key=lambda u: not OBJECTS[u[1]][3])
    units += [('more', i) for i in range(len(OBJECTS))]
    units += [('meta', i) for i in range(len(META))]
    return units


def run_unit(ctx, what, i, *u):
    th = ctx.thorough
    if what == 'meta':
        kind, c = META[i]
        for jobs in (1, 2):
            ctx.run('meta %s %s %d jobs' % (kind, c, jobs), meta, ctx, kind, c, jobs)
        return
    name, mk, ops, slow = OBJECTS[i]
    st = Straight(mk, ops)
    n = range(len(ops))

    def names(h):
        return ','.join(ops[j][0] for j in h) or '-'
    if what == 'more':
        for k in range(2 if not slow or th else 1):
            for hist in itertools.product(n, repeat=k):
                for hows in itertools.product(HOW[:1] + HOW[2:4], repeat=2):
                    for cont in itertools.product(n, repeat=1):
                        ctx.run('%s [%s] %s then %s' % (name, names(hist), '+'.join(hows), names(cont)), again, ctx, st, hist, hows, cont)
        if not slow and i % 3 == 0 or th:
            for hist in ((), (0,)):
                ctx.run('%s [%s] in other processes' % (name, names(hist)), worker, ctx, i, hist)
        return
    how = HOW[u[0]]
    top = (1, 2)[th] if slow else (2, 3)[th]
    if not th and not slow and (how not in HOW[0::3] or len(ops) > 5):
        top -= 1
    for k in range(top + 1):
        for hist in itertools.product(n, repeat=k):
            deep = 1 if slow or k == 2 and not (th and len(ops) < 6) or k > 2 or k == 1 and not th and (len(ops) > 5 or how != 'deepcopy') else 2
            for left in itertools.product(n, repeat=1):
                for right in itertools.product(n, repeat=deep):
                    for order in (0, 1):
                        if (slow or k == 2 and not th) and order != (left[0] + right[0]) % 2:
                            continue
                        ctx.run('%s [%s] %s original %s copy %s %d' % (name, names(hist), how, names(left), names(right), order),
                                one, ctx, st, hist, how, left, right, order)
