"""C12: every sequence of appends (single features, chunks, other feature arrays, the
array itself, rejected data) up to a depth is executed on a feature array and on the
model, a plain list of feature tuples; after every step all observers are compared."""
import itertools

import numpy as np

from robuststats.estimation.base import _FeatureArray

BOUNDS = {
    'quick': '15 layouts (1-3 components; vectors, square, Hermitian, skew, mixed and rectangular matrices, 3-d; float, complex, int, float32, mixed): '
             'all sequences of 4 operations out of 11 accepted (a chunk of nothing included), 8 rejected appends tried in every state; growth: all sequences of 3 chunk sizes '
             'from {0,1,2,500,999,1000,1001,2001,2500} and single appends across the 1000 and 2000 boundaries',
    'thorough': 'all sequences of 5 operations; 4 chunk sizes',
}
RULE = 'a state is a sequence of operations'


def herm(A):
    return A + np.conj(np.swapaxes(A, -1, -2))


LAYOUTS = {
    'vector': [((3,), float, None)],
    'one number': [((1,), complex, None)],
    'hermitian': [((2, 2), complex, 'h')],
    'square': [((2, 2), float, None)],
    'skew': [((2, 2), complex, 's')],
    'matrix and vector': [((2, 2), float, 'h'), ((3,), float, None)],
    'three': [((2,), complex, None), ((3, 3), complex, 'h'), ((2, 3), float, None)],
    'integers': [((2,), int, None), ((2, 2), int, 'h')],
    'single precision': [((2, 2), np.float32, 'h'), ((2,), np.complex64, None)],
    # Hermitian, general and skew matrices mixed in one component, in the three cyclic orders
    'mixed 0': [((2, 2), complex, 0), ((2,), float, None)],
    'mixed 1': [((2, 2), complex, 1)],
    'mixed 2': [((3, 3), float, 2)],
    'almost': [((2, 2), float, 'n'), ((2, 2), complex, 'h')],
    'three dimensions': [((2, 2, 2), float, None)],
    'large matrix': [((7, 7), complex, 'h'), ((7,), float, None)],
}


def value(layout, i):
    out = []
    for c, (shape, dt, kind) in enumerate(layout):
        n = int(np.prod(shape))
        a = (100.*i + np.arange(n)*(1 + c) + 1)
        if np.dtype(dt).kind == 'c':
            a = a + 1j*(np.arange(n)[::-1]*2 + i + 1)
        a = a.reshape(shape)
        if kind in (0, 1, 2):
            kind = ('h', None, 's')[(i + i//10 + kind - 1) % 3]
        if kind == 'n':
            a = herm(a)
            if (i + i//10) % 3 == 0:
                a[0, 1] += 1e-3
        elif kind == 'h':
            a = herm(a)
        elif kind == 's':
            a = a - np.conj(a.T)
        out.append(a.astype(dt))
    return tuple(out)


def block(layout, i, n):
    vs = [value(layout, i + k) for k in range(n)]
    return [np.stack([v[c] for v in vs]) for c in range(len(layout))], vs


def triu(a):
    n = len(a)
    return np.array([a[i, j] for i in range(n) for j in range(i, n)])


def vectorised(layout, model):
    rows = []
    pack = []
    for c in range(len(layout)):
        A = [v[c] for v in model]
        sq = A[0].ndim == 2 and A[0].shape[0] == A[0].shape[1]
        pack.append(sq and (all(np.allclose(a, a.conj().T, 0, 1e-7) for a in A) or all(np.allclose(a, -a.conj().T, 0, 1e-7) for a in A)))
    for v in model:
        rows.append(np.concatenate([triu(a) if pk else a.ravel() for a, pk in zip(v, pack)]))
    return np.array(rows)


def content(fa):
    """list of feature tuples through export"""
    e = fa.export()
    e = e if isinstance(e, (list, tuple)) else [e]
    if len(fa) == 1:
        return [tuple(np.asarray(x) for x in e)]
    return [tuple(x[i] for x in e) for i in range(len(fa))]


def stack(model, c):
    return np.stack([v[c] for v in model])


def observe(ctx, layout, fa, model, full=True):
    n = len(model)
    ctx.ok(len(fa) == n, 'length', len(fa), n)
    ctx.ok(fa.nb_manifolds == len(layout), 'number of components')
    if n == 0:
        return
    ctx.ok(tuple(fa.dtype) == tuple(np.dtype(l[1]) for l in layout), 'element types', fa.dtype)
    ctx.ok(tuple(fa.shape) == tuple((n,) + l[0] for l in layout), 'shape', fa.shape)
    e = fa.export()
    e = e if len(layout) > 1 else [e]
    for c in range(len(layout)):
        w = stack(model, c)
        ctx.same(np.asarray(e[c]), w[0] if n == 1 else w, 'export of component %d' % c)
    V = fa.vectorize()
    want = vectorised(layout, model)
    ctx.ok(V.shape == want.shape, 'shape of the vectorisation', V.shape, want.shape)
    ctx.ok(np.array_equal(V, want), 'vectorisation', V, want)
    keys = [0, -1, n - 1, -n, np.int64(n//2), slice(None), slice(1, None), slice(0, 1), slice(None, None, -1), slice(-2, None), slice(0, n + 5),
            slice(None, None, 2), slice(None, -1), slice(0, -2), slice(-3, -1), slice(1, -1, 2), slice(-1, None, -2), slice(0, 0), slice(n, None), [],
            [False]*n, [0], [n - 1, 0], [-1, 0, -n], [0, 0, n - 1], np.array([n//2, 0]), np.arange(n) % 2 == 0, [True]*n, list(np.arange(n) == n - 1)]
    if full:
        keys += list(range(1, min(n, 5)))
    if n > 990:
        keys += [k for k in (998, 999, 1000, 1001, 1999, 2000) if k < n] + [slice(n - 3, n + 3), slice(995, 1005), list(range(n))]
    idx = np.arange(n)
    for k in keys:
        sel = np.atleast_1d(idx[k if k != [] else slice(0, 0)] if isinstance(k, list) else idx[k])
        if len(sel) == 0:
            if k == []:
                k = np.array([], dtype=int)
            g = fa[k]
            ctx.ok(len(g) == 0 and g.nb_manifolds == len(layout), 'an empty selection is not empty', len(g))
            g.append(block(layout, 60, 2)[0])
            ctx.ok(len(g) == 2 and len(fa) == n, 'length after appending to an empty selection', len(g), len(fa))
            for c, w in enumerate(block(layout, 60, 2)[0]):
                ge = g.export()
                ctx.same(np.asarray(ge if len(layout) == 1 else ge[c]), w, 'an empty selection that was appended to')
            continue
        g = fa[k]
        ctx.ok(type(g) is type(fa), 'type of an item')
        ctx.ok(len(g) == len(sel), 'length of the selection %r' % (k if n < 20 else type(k),), len(g), len(sel))
        ge = g.export()
        ge = ge if len(layout) > 1 else [ge]
        for c in range(len(layout)):
            w = stack(model, c)[sel]
            ctx.same(np.asarray(ge[c]), w[0] if len(sel) == 1 else w, 'selection %s' % (k if n < 20 else type(k),))
    for k in (n, -n - 1, [0, n], [-n - 1]):
        ctx.raises(lambda: fa[k], 'index %s of %d' % (k, n), IndexError)
    if n <= 12 or full is None:
        got = [content(x) for x in fa]
        ctx.ok(len(got) == n, 'number of iterated elements', len(got), n)
        for g, v in zip(got, model):
            ctx.same(list(g[0]), list(v), 'iterated element')
    ctx.ok(isinstance(str(fa), str) and isinstance(repr(fa), str), 'str')
    ctx.see(V)


# ---- operations: (fa, model, layout, i) -> expected addition -----------------
def op_single(fa, layout, i, model):
    v = value(layout, i)
    src = [a.copy() for a in v]
    fa.append(src)
    for a in src:
        a *= 0
    return [v]


def op_tuple(fa, layout, i, model):
    v = value(layout, i)
    if len(layout) == 1:
        src = v[0].copy()
        fa.append(src)
        src *= 0
    else:
        fa.append(tuple(a.copy() for a in v))
    return [v]


def op_one_batch(fa, layout, i, model):
    b, vs = block(layout, i, 1)
    fa.append(b)
    for a in b:
        a *= 0
    return vs


def op_chunk(n):
    def f(fa, layout, i, model):
        b, vs = block(layout, i, n)
        fa.append(b if n % 2 else tuple(b))
        for a in b:
            a *= 0
        return vs
    return f


def op_nothing(fa, layout, i, model):
    """a chunk of no features"""
    fa.append([a[:0] for a in block(layout, i, 1)[0]])
    return []


def op_views(fa, layout, i, model):
    """non-contiguous read-only views"""
    b, vs = block(layout, i, 4)
    b = [np.asfortranarray(a)[::-2] for a in b]
    for a in b:
        a.flags.writeable = False
    fa.append(b)
    return vs[::-2]


def op_array(fa, layout, i, model):
    other = _FeatureArray(*[l[0] for l in layout])
    b, vs = block(layout, i, 2)
    other.append(b)
    fa.append(other)
    other.append(block(layout, i + 5, 1)[0])
    return vs


def op_array1(fa, layout, i, model):
    other = _FeatureArray(*[l[0] for l in layout])
    other.append(block(layout, i, 1)[0])
    fa.append(other)
    return [value(layout, i)]


def op_self(fa, layout, i, model):
    if not model:
        return []
    fa.append(fa)
    return list(model)


def op_slice(fa, layout, i, model):
    if not model:
        return []
    fa.append(fa[::-1])
    return model[::-1]


OPS = [('single', op_single), ('tuple', op_tuple), ('batch of 1', op_one_batch), ('chunk 2', op_chunk(2)), ('chunk 3', op_chunk(3)),
       ('views', op_views), ('array', op_array), ('array of 1', op_array1), ('self', op_self), ('reversed', op_slice), ('nothing', op_nothing)]


def rejects(layout, model):
    v = value(layout, 77)
    b = block(layout, 77, 2)[0]
    n = len(layout)
    out = [('none', None), ('number', 3.), ('dictionary', {0: v[0]}), ('string', 'ab'),
           ('too many components', list(v) + [v[0]]), ('list instead of array', [v[0].tolist()] + list(v[1:]))]
    for c in range(n):
        def sub(a, c=c, base=v):
            return list(base[:c]) + [a] + list(base[c + 1:])
        out.append(('longer feature %d' % c, sub(np.concatenate([v[c], v[c]], axis=-1))))
        out.append(('two batch axes %d' % c, sub(b[c][np.newaxis], base=b)))
        out.append(('flat feature %d' % c, sub(v[c].ravel()[:-1])))
        out.append(('wrong feature in a chunk %d' % c, sub(np.concatenate([b[c], b[c]], axis=-1), base=b)))
        if n > 1:
            out.append(('other number of features %d' % c, sub(block(layout, 77, 3)[0][c], base=b)))
        if model:
            other = np.float64 if layout[c][1] is not float else np.complex128
            out.append(('element type %d' % c, sub(v[c].astype(other))))
            out.append(('element type of a chunk %d' % c, sub(b[c].astype(other), base=b)))
    if n > 1:
        out.append(('too few components', list(v[:-1])))
        out.append(('a bare array', v[0]))
    return out


def attempt(ctx, layout, fa, model):
    for name, bad in rejects(layout, model):
        ctx.raises(lambda: fa.append(bad), 'appending data of the wrong kind (%s)' % name)
        ctx.ok(len(fa) == len(model), 'length after rejecting (%s)' % name, len(fa), len(model))
        if model:
            e = fa.export()
            e = e if len(layout) > 1 else [e]
            for c in range(len(layout)):
                w = stack(model, c)
                ctx.same(np.asarray(e[c]), w[0] if len(model) == 1 else w, 'content after rejecting (%s)' % name)
    other = _FeatureArray(*[l[0] for l in layout], (2,))
    ctx.raises(lambda: fa.append(other), 'appending an empty feature array of another layout')


def sequence(ctx, layout, ops, start=None):
    fa = _FeatureArray(*[l[0] for l in layout])
    model = []
    observe(ctx, layout, fa, model)
    if len(ops) <= 2:
        attempt(ctx, layout, fa, model)
    i = 1
    kept = []
    for o in ops:
        new = OPS[o][1](fa, layout, i, model)
        model = model + new
        i += 10
        ctx.step()
        if o == ops[-1] or len(ops) < 3:
            pass
        kept.append((fa[:], list(model)) if model else None)
    observe(ctx, layout, fa, model)
    attempt(ctx, layout, fa, model)
    # accepted data still accepted after the rejected ones
    model = model + op_single(fa, layout, 900, model)
    observe(ctx, layout, fa, model, full=False)
    for k in kept:
        if k:
            g = content(k[0])
            ctx.ok(len(g) == len(k[1]), 'an earlier selection changed length')
            ctx.same([list(x) for x in g], [list(x) for x in k[1]], 'an earlier selection changed')
    ctx.trace()


SIZES = (0, 1, 2, 500, 999, 1000, 1001, 2001, 2500)


def growth(ctx, layout, sizes):
    fa = _FeatureArray(*[l[0] for l in layout])
    blocks = []
    i = 0
    for n in sizes:
        b = [(np.arange(n*int(np.prod(s)), dtype=float).reshape((n,) + s) + 7*i + 1 + (1j*i if np.dtype(dt).kind == 'c' else 0)).astype(dt)
             for s, dt, _ in layout]
        if n == 1:
            fa.append([x[0] for x in b])
        else:
            fa.append(b)
        ctx.step()
        blocks.append(b)
        i += n
        want = [np.concatenate([q[c] for q in blocks]) for c in range(len(layout))]
        ctx.ok(len(fa) == i, 'length', len(fa), i)
        if i == 0:
            continue
        e = fa.export()
        e = e if len(layout) > 1 else [e]
        ctx.ok(len(fa) == i, 'length', len(fa), i)
        ctx.ok(tuple(fa.shape) == tuple((i,) + l[0] for l in layout), 'shape', fa.shape)
        for c in range(len(layout)):
            ctx.same(np.asarray(e[c]), want[c] if i > 1 else want[c][0], 'content after growing')
        for k in (i - 1, -i, 0) + tuple(k for k in (n, 999, 1000, 1001) if k < i):
            g = fa[k].export()
            g = g if len(layout) > 1 else [g]
            for c in range(len(layout)):
                ctx.same(np.asarray(g[c]), want[c][k], 'item %d' % k)
        ctx.raises(lambda: fa[i], 'index past the end', IndexError)
        ctx.ok(len(fa[i - 1:i + 100]) == 1, 'slice past the end')
        for k in (slice(None, -1), slice(1, -2), slice(-3, -1), slice(-1, -4, -1), slice(0, 0), slice(n, None, 3)):
            g = fa[k]
            ctx.ok(len(g) == len(want[0][k]), 'length of the slice %s' % k, len(g), len(want[0][k]))
            if len(g):
                g = g.export()
                g = g if len(layout) > 1 else [g]
                for c in range(len(layout)):
                    w = want[c][k]
                    ctx.same(np.asarray(g[c]), w if len(w) > 1 else w[0], 'slice %s' % k)
        ctx.ok(len(fa[[True]*i]) == i, 'mask')
        ctx.ok(len(fa.vectorize()) == i, 'vectorised length')
    ctx.trace()


def many(ctx, layout, n):
    """n single appends"""
    fa = _FeatureArray(*[l[0] for l in layout])
    model = []
    for k in range(n):
        v = value(layout, k)
        fa.append(list(v))
        model.append(v)
        if k % 100 == 0 or k in (998, 999, 1000, 1001, 1002, 1999, 2000, 2001):
            ctx.ok(len(fa) == k + 1, 'length')
            ctx.same(list(content(fa[k])[0]), list(v), 'last appended feature')
    ctx.step(n)
    observe(ctx, layout, fa, model, full=False)
    ctx.ok(sum(1 for _ in fa) == n, 'number of iterated elements')


def plan(tier):
    units = []
    for d in range(0, 6 if tier == 'thorough' else 5):
        for name in LAYOUTS:
            if d >= 3:
                big = name in ('matrix and vector', 'hermitian', 'three')
                if tier == 'quick' and d == 4 and not big:
                    continue
                if d == 5 and not name == 'matrix and vector':
                    continue
                for f in range(len(OPS)):
                    units.append(('ops', name, d, f))
            else:
                units.append(('ops', name, d, None))
    for name in ('vector', 'matrix and vector'):
        for a in SIZES:
            units.append(('growth', name, a, 4 if tier == 'thorough' else 3))
    for n in (999, 1000, 1001, 1002, 2003):
        for name in ('matrix and vector', 'vector'):
            units.append(('many', name, n))
    return units


def run_unit(ctx, what, name, *u):
    layout = LAYOUTS[name]
    if what == 'ops':
        d, first = u
        # the full alphabet to depth 3, then the seven that differ in kind
        alpha = range(len(OPS)) if d <= 3 else ((0, 2, 3, 6, 8, 9, 10) if ctx.tier == 'quick' or d == 5 else range(len(OPS)))
        if d == 4 and ctx.tier == 'quick' and first not in alpha:
            return
        for ops in itertools.product(*([alpha]*d if first is None else [[first]] + [alpha]*(d - 1))):
            key = '%s: %s' % (name, ', '.join(OPS[o][0] for o in ops) or 'empty')
            ctx.run(key, sequence, ctx, layout, ops)
    elif what == 'growth':
        a, d = u
        for sizes in itertools.product(SIZES, repeat=d - 1):
            s = (a,) + sizes
            if sum(s) > (6000 if d == 3 else 5000):
                continue
            ctx.run('%s sizes %s' % (name, s), growth, ctx, layout, s)
    else:
        ctx.run('%s %d single appends' % (name, u[0]), many, ctx, layout, u[0])
