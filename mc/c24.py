"""C24: explicit-state search over programs: every sequence of draws, reseedings, raises
and (nested) temporary-seed blocks up to a size is executed on the real context manager
and on a reference machine with one private RandomState per block; every number drawn and
the final global state are compared bit for bit."""
import contextlib
import itertools

import numpy as np

from robuststats.utils.montecarlo import temp_seed

BOUNDS = {
    'quick': 'all programs of at most 4 instructions over {uniform draw, normal draw (cached pair), other draw, global reseed, raise, block}, nested up to 3 deep, '
             'blocks left in 6 ways; all programs of at most 2 instructions in a block x 12 seeds x 5 exception types x 3 prior states',
    'thorough': 'all programs of at most 5 instructions (4 with all ways of leaving a block)',
}
RULE = 'a state is a program prefix with the global random state it has reached'


class Boom(Exception):
    pass


EXC = {'boom': Boom, 'key': KeyboardInterrupt, 'stop': StopIteration, 'exit': SystemExit, 'gen': GeneratorExit}
SEEDS = [0, 1, 7, 77, 2**32 - 1, np.int64(5), np.uint8(200), True, [1, 2, 3], np.array([4, 5]), (9,), 123456789]
HOWS = ['plain', 'return', 'break', 'decorator', 'stack', 'generator']


def programs(size, depth, ops, blocks):
    """all instruction tuples with exactly `size` instructions; a block counts one plus its body"""
    if size == 0:
        yield ()
        return
    for op in ops:
        for rest in programs(size - 1, depth, ops, blocks):
            yield ((op,),) + rest
    if depth:
        for n in range(size):
            for body in programs(n, depth - 1, ops, blocks):
                for b in blocks:
                    for rest in programs(size - 1 - n, depth, ops, blocks):
                        yield (('B',) + b + (body,),) + rest


def draw(rs, op):
    if op == 'u':
        return rs.rand(2)
    if op == 'n':
        return rs.randn()          # leaves a cached second value
    if op == 'o':
        return np.append(rs.permutation(4), rs.gamma(0.3))


class Real:
    """the package's context manager and the global random state"""

    def __init__(self):
        self.out = []

    def run(self, prog):
        for ins in prog:
            op = ins[0]
            if op == 'B':
                _, seed, how, catch, body = ins
                try:
                    getattr(self, how)(seed, body)
                except BaseException as e:
                    if not catch:
                        raise
                    self.out.append(type(e).__name__)
            elif op == 's':
                np.random.seed(11)
            elif op in EXC:
                raise EXC[op]('inside')
            else:
                self.out.append(draw(np.random, op))

    def plain(self, seed, body):
        with temp_seed(seed):
            self.run(body)

    def return_(self, seed, body):
        def f():
            with temp_seed(seed):
                self.run(body)
                return 1
            return 2
        self.out.append(f())

    def break_(self, seed, body):
        n = 0
        for n in range(3):
            with temp_seed(seed):
                self.run(body)
                if n == 1:
                    break
                continue
        self.out.append(n)

    def decorator(self, seed, body):
        @temp_seed(seed)
        def f():
            self.run(body)
            return 5
        self.out.append(f())

    def stack(self, seed, body):
        with contextlib.ExitStack() as s:
            s.enter_context(temp_seed(seed))
            self.run(body)

    def generator(self, seed, body):
        def g():
            with temp_seed(seed):
                self.run(body)
                yield 3
                raise Boom('resumed')
        it = g()
        self.out.append(next(it))
        it.close()


setattr(Real, 'return', Real.return_)
setattr(Real, 'break', Real.break_)


class Model:
    """one private generator per block"""

    def __init__(self, state):
        self.rs = np.random.RandomState()
        self.rs.set_state(state)
        self.out = []

    def run(self, prog):
        for ins in prog:
            op = ins[0]
            if op == 'B':
                _, seed, how, catch, body = ins
                try:
                    self.block(seed, how, body)
                except BaseException as e:
                    if not catch:
                        raise
                    self.out.append(type(e).__name__)
            elif op == 's':
                self.rs.seed(11)
            elif op in EXC:
                raise EXC[op]('inside')
            else:
                self.out.append(draw(self.rs, op))

    def block(self, seed, how, body):
        old = self.rs
        for _ in range(2 if how == 'break' else 1):
            self.rs = np.random.RandomState(seed)
            try:
                self.run(body)
            except StopIteration as e:
                if how == 'generator':      # a generator turns it into RuntimeError
                    raise RuntimeError('generator raised StopIteration') from e
                raise
            finally:
                self.rs = old
        self.out += {'return': [1], 'break': [1], 'decorator': [5], 'generator': [3]}.get(how, [])


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def execute(ctx, prog, prior, n=4):
    np.random.seed(3)
    if prior == 'cached':
        np.random.randn()
    elif prior == 'advanced':
        np.random.rand(700)
    start = np.random.get_state()
    m, r = Model(start), Real()
    ends = []
    for x in (m, r):
        try:
            x.run(prog)
            ends.append(None)
        except BaseException as e:
            if type(e).__name__ == 'NonTermination':
                raise
            ends.append(type(e).__name__)
    ctx.step(len(r.out) + 1)
    ctx.ok(ends[0] == ends[1], 'the program ends differently', ends)
    ctx.ok(len(m.out) == len(r.out), 'different number of observations', m.out, r.out)
    for i, (a, b) in enumerate(zip(m.out, r.out)):
        ctx.same(b, a, 'observation %d' % i)
    ctx.ok(same_state(np.random.get_state(), m.rs.get_state()), 'the global random stream does not continue where it was')
    ctx.same(np.random.randn(3), m.rs.randn(3), 'next draws of the global stream')
    ctx.trace()
    ctx.see(repr(m.out), ends[0])


def invalid(ctx, seed):
    np.random.seed(5)
    np.random.randn()
    s = np.random.get_state()

    def f():
        with temp_seed(seed):
            np.random.rand()
    ctx.raises(f, 'invalid seed %r' % (seed,))
    ctx.ok(same_state(s, np.random.get_state()), 'an invalid seed changes the global stream')
    ctx.step()


OPS = ('u', 'n', 's', 'boom')


def big(tier):
    return list(itertools.product(HOWS, (True, False)))


def plan(tier):
    out = [('long', n, i) for n in range(1, 5 if tier == 'quick' else 6) for i in range(8)]
    out += [('hows', n, i) for n in range(1, 4 if tier == 'quick' else 5) for i in range(8)]
    out += [('seeds', 0, i) for i in range(len(SEEDS))] + [('invalid', 0, 0)]
    return out


def run_unit(ctx, what, n, i):
    if what == 'long':
        blocks = [(7, 'plain', True), (1, 'plain', False)]
        for k, prog in enumerate(programs(n, 3, OPS, blocks)):
            if k % 8 == i:
                ctx.run('program %s' % (prog,), execute, ctx, prog, ('plain', 'cached', 'advanced')[k % 3])
    elif what == 'hows':
        blocks = [(7, h, c) for h, c in big(ctx.tier)]
        for k, prog in enumerate(programs(n, 2, ('o', 'n', 'boom'), blocks)):
            if k % 8 == i:
                ctx.run('program %s' % (prog,), execute, ctx, prog, ('cached', 'advanced', 'plain')[k % 3])
    elif what == 'seeds':
        for m in range(3):
            for body in programs(m, 1, ('u', 'n', 'o', 'boom', 'key', 'stop', 'exit', 'gen'), [(3, 'plain', True)]):
                for how, prior in itertools.product(HOWS, ('plain', 'cached', 'advanced')):
                    prog = (('B', SEEDS[i], how, True, body), ('n',))
                    ctx.run('%s %s' % (prior, prog), execute, ctx, prog, prior)
    else:
        for s in (-1, 2**32, 1.5, 'a', [-1], [[1, 2], [3, 'x']]):
            ctx.run('seed %r' % (s,), invalid, ctx, s)
