"""C09: every history of estimator operations up to the stated depth (fits on different
data, starts and sizes, failing fits, parameter changes, scores, clones, deep copies,
use of a second estimator) is executed on real estimators; after each one parameters,
results and all left-behind copies are compared with a model whose only state is
(current parameters, parameters and data of the last successful fit)."""
import copy
import itertools
import pickle

import numpy as np
from sklearn.base import clone

from mc import core, data, est, ref
from robuststats.estimation import base, structured as struct
from robuststats.models.manifolds import HermitianPositiveDefinite
from robuststats.online.estimation import StochasticGradientCovarianceEstimator

BOUNDS = {
    'quick': '15 estimator kinds (six M-estimators, Tyler with the method switched, empirical, Kronecker MM/Student, online); all histories of length <= 3 '
             'over 14 to 18 operations (2 for the gradient-based ones); every parameter x 19 values through constructor, clone and set_params',
    'thorough': 'length <= 4 (3 for the gradient-based ones)',
}
RULE = 'a state is an operation history (not merged: hidden state of the objects may differ)'
LIMIT = {'quick': 400., 'thorough': 3400.}


def public(e):
    return {k: copy.deepcopy(v) for k, v in vars(e).items() if k.endswith('_') and not k.startswith('_') and k != 'n_features_in_'}


class Kind:
    """alphabet and model of one estimator class"""
    exact = True        # fits are deterministic
    tol = 1e-9
    depth = (3, 4)
    score = True

    def data(self):
        c, p = self.cplx, self.p
        return {'A': data.gauss(3*p + 3, p, c, 0, 'corr'), 'B': data.gauss(3*p + 5, p, c, 1, 'heavy'),
                'C': data.gauss(3*p + 7, p + 1, c, 2, 'gauss')}

    def fitargs(self, start, X):
        return {} if start is None else dict(init=data.spd(X.shape[1], self.cplx, start))

    def summary(self, e):
        out = dict(covariance_=e.covariance_, location_=e.location_, precision=e.get_precision())
        for k in ('err_', 'iteration_', 'A_', 'B_'):
            if hasattr(e, k):
                out[k] = getattr(e, k)
        return out


class MEst(Kind):
    p = 2

    def __init__(self, kind, cplx):
        self.kind, self.cplx = kind, cplx
        self.new = lambda **kw: est.CLASS[kind, cplx](**kw)
        self.base = dict(tol=1e-4, iter_max=100, verbosity=False)
        if kind == 'tyler':
            self.base.update(method='fixed-point', normalisation='None')
            self.sets = [('normalisation', 'trace'), ('normalisation', 'determinant'), ('iter_max', 3), ('tol', 1e-7)]
        elif kind == 'student':
            self.base.update(df=3)
            self.sets = [('df', 0.7), ('iter_max', 3), ('tol', 1e-7), ('verbosity', True)]
        else:
            self.base.update(q=0.9)
            self.sets = [('q', 0.4), ('iter_max', 3), ('tol', 1e-7), ('verbosity', True)]
        self.score = kind != 'huber'
        self.badset = ('method', 'no such method') if kind == 'tyler' else ('df', -1.) if kind == 'student' else ('q', 2.)

    def expected(self, params, X, start):
        par = params.get(est.PARNAME.get(self.kind))
        S0 = ref.scm(X) if start is None else data.spd(X.shape[1], self.cplx, start)
        Ss, ds = ref.run(self.kind, par, X, S0, min(params['iter_max'], 130))
        k = next((k for k in range(len(ds)) if ds[k] <= params['tol']), len(ds) - 1)
        S = ref.normalise(Ss[k], params['normalisation']) if self.kind == 'tyler' else Ss[k]
        return dict(covariance_=S, location_=np.zeros(len(S)), precision=np.linalg.inv(S), err_=ds[k], iteration_=k)


class Fresh(Kind):
    """expected results come from a new estimator"""

    def expected(self, params, X, start):
        e = self.new(**copy.deepcopy(params))
        e.fit(X, **self.fitargs(start, X))
        return self.summary(e)


class TylerNG(Fresh):
    """fixed-point and natural gradient methods alternate"""
    cplx, p, tol, depth = False, 2, 1e-3, (2, 3)
    exact = False       # random default start

    def __init__(self, cplx):
        self.cplx = cplx
        self.new = est.CLASS['tyler', cplx]
        self.base = dict(tol=1e-11, iter_max=2000, verbosity=False, method='natural gradient', normalisation='trace')
        self.sets = [('method', 'fixed-point'), ('method', 'natural gradient'), ('normalisation', 'determinant')]
        self.badset = ('method', 'no such method')

    def expected(self, params, X, start):
        S = ref.normalise(ref.solve('tyler', None, X), params['normalisation'])
        return dict(covariance_=S, location_=np.zeros(len(S)), precision=np.linalg.inv(S))

    def summary(self, e):
        return dict(covariance_=e.covariance_, location_=e.location_, precision=e.get_precision())


class Emp(Fresh):
    p = 2

    def __init__(self, cplx):
        self.cplx = cplx
        self.new = base.ComplexEmpiricalCovariance if cplx else base.RealEmpiricalCovariance
        self.base = dict(store_precision=True, assume_centered=False)
        self.sets = [('store_precision', False), ('assume_centered', True)]
        self.badset = None

    def fitargs(self, start, X):
        return {}

    def expected(self, params, X, start):
        m = 0*X[0] if params['assume_centered'] else X.mean(0)
        S = ref.scm(X - m)
        return dict(covariance_=S, location_=m, precision=np.linalg.inv(S))


class KronMM(Fresh):
    cplx, p, tol, depth, score = True, 4, 1e-6, (2, 3), False

    def __init__(self):
        self.new = struct.KroneckerEllipticalMM
        self.base = dict(a=2, b=2, tol=1e-4, iter_max=100, store_precision=True, verbosity=False)
        self.sets = [('iter_max', 3), ('tol', 1e-7), ('store_precision', False), ('verbosity', True)]
        self.badset = ('a', 3)

    def data(self):
        return {'A': data.gauss(15, 4, True, 0, 'corr'), 'B': data.gauss(18, 4, True, 1, 'heavy')}

    def fitargs(self, start, X):
        return {}


class KronT(KronMM):
    score, tol = True, 1e-6

    def __init__(self):
        self.new = struct.KroneckerStudent
        self.base = dict(a=2, b=2, df=3, store_precision=True, assume_centered=True, verbosity=0)
        self.sets = [('df', 20), ('assume_centered', False), ('store_precision', False)]
        self.badset = ('a', 3)

    def fitargs(self, start, X):
        return {} if start is None else dict(init=(np.diag([2., 0.5]).astype(complex), 3*np.eye(2, dtype=complex)))


def direction(X, S):
    return X.T @ X.conj() - S


class Online(Fresh):
    cplx, p, tol = True, 2, 1e-9

    def __init__(self):
        self.new = StochasticGradientCovarianceEstimator
        self.base = dict(manifold=HermitianPositiveDefinite(2), rgrad=direction, lrate=0.1, estimatetocov=None,
                         cost=None, verbosity=False)
        self.sets = [('lrate', 0.02), ('verbosity', True)]
        self.badset = None

    def data(self):
        return {'A': data.gauss(6, 2, True, 0, 'corr'), 'B': data.gauss(8, 2, True, 1, 'heavy')}

    def fitargs(self, start, X):
        return dict(init=np.eye(X.shape[1], dtype=complex) if start is None else data.spd(X.shape[1], True, start))

    def summary(self, e):
        return dict(covariance_=e.covariance_, estimate_=e.estimate_, precision=e.get_precision())


KINDS = [lambda k=k, c=c: MEst(k, c) for c in (False, True) for k in ('tyler', 'student', 'huber')] + \
    [lambda c=c: TylerNG(c) for c in (False, True)] + [lambda c=c: Emp(c) for c in (False, True)] + \
    [KronMM, KronT, Online]


class World:
    """one history on real objects next to its model"""

    def __init__(self, ctx, kind, cache):
        self.ctx, self.kind, self.cache = ctx, kind, cache
        self.D = kind.data()
        self.params = dict(kind.base)
        self.e = kind.new(**self.params)
        self.fitted = None          # expected summary
        self.recorded = None        # number of features of a later failed attempt
        self.X = None
        self.left = []              # (object, params, expected summary)

    def expected(self, d, start):
        pars = {k: v for k, v in self.params.items() if k != 'verbosity'}
        key = (tuple(sorted((k, repr(v)) for k, v in pars.items())), d, start)
        if key not in self.cache:
            pars['verbosity'] = type(self.params['verbosity'])(0) if 'verbosity' in self.params else False
            if 'verbosity' not in self.params:
                del pars['verbosity']
            self.cache[key] = self.kind.expected(pars, self.D[d], start)
        return self.cache[key]

    def fresh(self, d, start):
        """public results of a new estimator with the current parameters"""
        pars = {k: v for k, v in self.params.items()}
        key = ('fresh', tuple(sorted((k, repr(v)) for k, v in pars.items())), d, start)
        if key not in self.cache:
            e = self.kind.new(**copy.deepcopy(pars))
            e.fit(self.D[d], **self.kind.fitargs(start, self.D[d]))
            self.cache[key] = public(e)
        return self.cache[key]

    def broken(self):
        b = self.kind.badset
        return b is not None and self.params[b[0]] == b[1]

    def fits(self, d, start, transform=False):
        e, X = self.e, self.D[d]
        kw = self.kind.fitargs(start, X)
        if self.broken():
            self.ctx.raises(lambda: e.fit(X, **kw), 'fit with an invalid parameter') if self.kind.badset[0] != 'q' else None
            return
        if transform:
            r = e.fit_transform(X, **kw)
        else:
            r = e.fit(X, **kw)
            self.ctx.ok(r is e, 'fit does not return the estimator')
        self.fitted, self.X, self.recorded = self.expected(d, start), X, None
        self.last = self.fresh(d, start)
        self.same_public('after the fit')
        if transform:
            self.ctx.close(r, self.fitted['covariance_'], self.kind.tol, 'fit_transform')

    def same_public(self, msg):
        if not self.kind.exact or self.fitted is None:
            return
        got = public(self.e)
        self.ctx.ok(set(got) == set(self.last), msg + ': results present differ from those of a new estimator', sorted(got), sorted(self.last))
        for k, v in self.last.items():
            self.ctx.ok(core.same(got[k], v), msg + ': %s is not that of a new estimator' % k, got[k], v)

    def do(self, op):
        self.ctx.step()
        e, what = self.e, op[0]
        if what in ('fit', 'fit_transform'):
            self.fits(op[1], op[2], what == 'fit_transform')
        elif what == 'fail':
            # scikit-learn records the number of features of every attempt
            X = (self.D['A'] if self.X is None else self.X).copy()
            if op[1] == 'wider':
                X = np.concatenate([X, 1 + X[:, :1]**2], axis=1)
                I = np.eye(X.shape[1] + 2)
                self.ctx.raises(lambda: e.fit(X, init=I), 'a start of the wrong size')
                self.recorded = X.shape[1]
                return
            if op[1] == 'nan':
                X[1, 0] = np.nan
                bad = lambda: e.fit(X, **self.kind.fitargs(None, X))
            elif op[1] == '1d':
                bad = lambda: e.fit(X[0], **self.kind.fitargs(None, X))
            else:
                I = np.eye(X.shape[1] + 3)
                bad = lambda: e.fit(X, init=I)
            self.ctx.raises(bad, 'invalid fit (%s)' % op[1])
        elif what == 'set':
            r = e.set_params(**{op[1]: op[2]})
            self.ctx.ok(r is e, 'set_params does not return the estimator')
            self.params[op[1]] = op[2]
        elif what == 'use':
            if self.fitted is not None and not self.broken() and self.recorded in (None, self.X.shape[1]):
                for _ in range(2):
                    e.mahalanobis(self.X)
                    e.error_norm(np.eye(self.X.shape[1]))
                    if self.kind.score:
                        e.score(self.X)
                    if hasattr(e, 'transform'):
                        self.ctx.close(e.transform(self.X[:2]), self.fitted['covariance_'], self.kind.tol, 'transform')
        elif what == 'clone':
            if self.broken() and self.kind.badset[0] == 'method':
                return        # the constructor already rejects this value
            self.left.append((e, dict(self.params), self.fitted, self.X))
            self.e = clone(e)
            self.ctx.ok(type(self.e) is type(e), 'clone has another type')
            self.fitted = None
        elif what == 'deepcopy':
            self.left.append((e, dict(self.params), self.fitted, self.X))
            self.e = copy.deepcopy(e)
        elif what == 'pickle':
            self.left.append((e, dict(self.params), self.fitted, self.X))
            self.e = pickle.loads(pickle.dumps(e))
            self.ctx.ok(type(self.e) is type(e), 'a pickled estimator has another type')
        elif what == 'other':
            o = self.kind.new(**copy.deepcopy({**self.kind.base, **dict([self.kind.sets[0]])}))
            X = self.D['B'][::-1]*1.5
            o.fit(X, **self.kind.fitargs(None, X))
            self.left.append((o, {**self.kind.base, **dict([self.kind.sets[0]])}, self.kind.summary(o), X))

    def check_one(self, e, params, fitted, what):
        ctx = self.ctx
        got = e.get_params()
        ctx.ok(set(got) == set(params), what + ': names of the parameters', sorted(got))
        for k, v in params.items():
            same = got[k] == v if isinstance(v, (int, float, str, bool, type(None))) or callable(v) else type(got[k]) is type(v)
            ctx.ok(same, what + ': parameter %s' % k, got[k], v)
        if fitted is None:
            ctx.ok(not hasattr(e, 'covariance_'), what + ': has results without having been fitted')
            return
        s = self.kind.summary(e)
        for k, v in fitted.items():
            if k in ('err_', 'iteration_') and self.kind.tol > 1e-6:
                continue
            if k == 'iteration_':
                ctx.ok(s[k] == v, what + ': iteration_', s[k], v)
            elif k == 'err_':
                ctx.close(s[k], v, 1e-4 + 1e-11/max(abs(v), 1e-15), what + ': err_')
            elif k == 'precision':
                ctx.close(s[k], v, max(self.kind.tol*100, 1e-6), what + ': precision')
            elif k == 'location_':
                ctx.near(s[k], v + 0*s[k], 1e-9, what + ': location_')
            else:
                ctx.close(s[k], v, self.kind.tol, what + ': ' + k)
        ctx.see(s['covariance_'])

    def check(self):
        self.same_public('at the end')
        self.check_one(self.e, self.params, self.fitted, 'estimator')
        for e, p, f, X in self.left:
            self.check_one(e, p, f, 'estimator left behind')


def operations(kind):
    D = kind.data()
    starts = (None, 'dense') if kind.fitargs('dense', D['A']) else (None,)
    ops = [('fit', 'A', s) for s in starts] + [('fit', 'B', None)]
    if 'C' in D:
        ops.append(('fit', 'C', None))
    if not isinstance(kind, (KronMM, Online)):
        ops.append(('fit_transform', 'B', starts[-1]))
    ops.append(('fail', 'nan'))
    if not isinstance(kind, Online):
        ops.append(('fail', '1d'))
    else:
        ops = [o for o in ops if o[0] != 'fail']
    if len(starts) > 1 and not isinstance(kind, (KronMM, Online)):
        ops.append(('fail', 'start'))
        ops.append(('fail', 'wider'))
    ops += [('set',) + s for s in kind.sets]
    if kind.badset:
        ops.append(('set',) + kind.badset)
    ops += [('use',), ('clone',), ('deepcopy',), ('pickle',), ('other',)]
    return ops


VALUES = [0, 1, 2, 30, 10**6, 0., 1e-16, 1e-12, 1e-4, 0.5, 0.999999, 1e12, np.inf, True, False, np.float64(0.3), np.int64(7), np.float32(1e-11), None]


def round_trip(ctx, kind, name, v):
    """parameters are stored as they are given"""
    pars = {**kind.base, name: v}
    e = kind.new(**pars)

    def holds(e, msg):
        for k, w in pars.items():
            g = e.get_params()[k]
            ctx.ok(g is w or (type(g) is type(w) and g == w), msg + ': parameter %s' % k, g, w)
            ctx.ok(e.get_params(deep=False)[k] is g and getattr(e, k) is g, msg + ': parameter %s is stored elsewhere' % k)
    holds(e, 'constructor')
    c = clone(e)
    ctx.ok(type(c) is type(e) and c is not e, 'clone')
    for k, w in pars.items():
        g = c.get_params()[k]
        ctx.ok(type(g) is type(w) and (k in ('manifold', 'rgrad') or g == w), 'clone: parameter %s' % k, g, w)
    e = kind.new(**kind.base)
    e.set_params(**{name: v})
    holds(e, 'set_params')
    e.set_params(**kind.base)
    ctx.ok(all(e.get_params()[k] is w or e.get_params()[k] == w for k, w in kind.base.items()), 'set back')
    ctx.raises(lambda: e.set_params(no_such_parameter=1), 'an unknown parameter')
    ctx.raises(lambda: kind.new(no_such_parameter=1, **kind.base), 'an unknown parameter')
    ctx.step(4)


def plan(tier):
    units = []
    for i, mk in enumerate(KINDS):
        n = len(operations(mk()))
        units += [(i, -1), (i, -2)] + [(i, j) for j in range(n)]
    return units


def play(ctx, kind, hist, cache):
    w = World(ctx, kind, cache)
    for op in hist:
        w.do(op)
    w.check()
    ctx.trace()


def run_unit(ctx, i, first):
    kind = KINDS[i]()
    ops = operations(kind)
    tag = '%s%s' % (type(kind).__name__, '' if not isinstance(kind, (MEst, TylerNG, Emp)) else
                    ' %s %s' % (getattr(kind, 'kind', ''), 'complex' if kind.cplx else 'real'))
    cache = {}
    if first == -2:
        for name in kind.base:
            if name in ('method', 'manifold', 'rgrad', 'estimatetocov', 'cost'):
                continue
            if name in ('a', 'b', 'df', 'q'):      # used by some constructors
                values = [1, 2, 3, 30, np.int64(7)] + ([0.3, np.float64(2.5), 1e-12, 1e6] if name in ('df', 'q') else [])
            else:
                values = VALUES
            for v in values + (['trace', 'determinant', 'element', 'None', 'other'] if name == 'normalisation' else []):
                ctx.run('%s %s=%r' % (tag, name, v), round_trip, ctx, kind, name, v)
        return
    if first < 0:
        ctx.run(tag + ' []', play, ctx, kind, (), cache)
        return
    depth = kind.depth[ctx.thorough]
    for n in range(depth):
        for rest in itertools.product(ops, repeat=n):
            hist = (ops[first],) + rest
            ctx.run('%s %s' % (tag, ' '.join('.'.join(map(str, o)) for o in hist)), play, ctx, kind, hist, cache)
