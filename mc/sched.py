"""Controlled scheduler for real threads: one thread runs at a time, every switch is
a recorded choice, schedules are explored depth first up to a preemption bound."""
import os
import sys
import threading

REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo')) + os.sep + 'robuststats' + os.sep


class Diverged(RuntimeError):
    """replaying a prefix met other choices: nondeterminism escaped control"""


class Stuck(RuntimeError):
    pass


class _T:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.sem = threading.Semaphore(0)
        self.started = self.done = False
        self.thread = None


class Run:
    def __init__(self, prefix=(), workers=None, grain=None):
        self.prefix = list(prefix)
        self.workers = workers        # at most this many started threads, None: no limit
        self.grain = grain            # None (explicit points), 'call', 'line', 'opcode'
        self.threads = []
        self.points = []              # (number of options, running thread still enabled)
        self.choices = []
        self.main = threading.Semaphore(0)
        self.by_ident = {}
        self.quiet = set()
        self.running = False

    # -- threads ------------------------------------------------------------
    def spawn(self, fn):
        t = _T(len(self.threads), fn)
        self.threads.append(t)
        return t

    def enabled(self, cur):
        active = sum(t.started and not t.done for t in self.threads)
        out = []
        for t in self.threads:
            if t.done or t is cur:
                continue
            if not t.started and self.workers is not None and active >= self.workers:
                continue
            if not t.started and any(not u.started for u in self.threads[:t.tid]) and self.fifo:
                continue
            out.append(t)
        if cur is not None and not cur.done:
            out.insert(0, cur)
        return out

    fifo = False

    def choose(self, cur):
        options = self.enabled(cur)
        if not options:
            return None
        alive = cur is not None and not cur.done
        c = 0
        if len(options) > 1:
            i = len(self.points)
            c = self.prefix[i] if i < len(self.prefix) else 0
            if c >= len(options):
                raise Diverged('choice %d of %d at point %d' % (c, len(options), i))
            self.points.append((len(options), alive))
            self.choices.append(c)
        return options[c]

    def _go(self, t):
        if not t.started:
            t.started = True
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        else:
            t.sem.release()

    def _body(self, t):
        self.by_ident[threading.get_ident()] = t
        try:
            if self.grain:
                sys.settrace(self._trace)
            t.fn()
        finally:
            sys.settrace(None)
            t.done = True
            try:
                nxt = self.choose(t)
            except BaseException as e:
                self.error = e
                nxt = None
            if nxt is None:
                self.main.release()
            else:
                self._go(nxt)

    error = None

    def point(self):
        """a scheduling point of the running thread"""
        t = self.by_ident.get(threading.get_ident())
        if t is None or t in self.quiet:
            return
        nxt = self.choose(t)
        if nxt is not t:
            self._go(nxt)
            if not t.sem.acquire(timeout=120):
                raise Stuck('thread never resumed')

    def _trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        # progress display runs under tqdm's own lock: never switch inside
        if not name.startswith(REPO) or name.endswith('verbose.py'):
            return None
        if self.grain == 'call':
            self.point()
            return None
        if self.grain == 'opcode':
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.point()
        return self._local

    def run(self):
        """run the spawned threads to completion"""
        first = self.choose(None)
        if first is None:
            return
        self._go(first)
        if not self.main.acquire(timeout=120):
            raise Stuck('no thread finished')
        if self.error is not None:
            raise self.error
        if len(self.choices) < len(self.prefix):
            raise Diverged('schedule ended before its prefix')
        for t in self.threads:
            if t.thread is not None:
                t.thread.join(5)

    def preemptions(self, i):
        return sum(1 for (n, alive), c in zip(self.points[:i], self.choices[:i]) if alive and c)


class quiet:
    """no scheduling inside (used around code holding locks)"""

    def __init__(self, run):
        self.run = run

    def __enter__(self):
        self.t = self.run.by_ident.get(threading.get_ident())
        self.run.quiet.add(self.t)
        self.old = sys.gettrace()
        sys.settrace(None)

    def __exit__(self, *a):
        self.run.quiet.discard(self.t)
        sys.settrace(self.old)


def explore(once, bound, cap=None):
    """once(prefix) -> Run.  Every schedule with at most bound preemptions, fewest
    first.  Returns (schedules, complete)."""
    n = 0
    levels = {0: [[]]}
    for level in range(bound + 1):
        todo = levels.pop(level, [])
        while todo:
            if cap is not None and n >= cap:
                return n, False
            prefix = todo.pop()
            x = once(prefix)
            n += 1
            for i in range(len(prefix), len(x.points)):
                options, alive = x.points[i]
                cost = x.preemptions(i) + (1 if alive else 0)
                if cost > bound:
                    continue
                for alt in range(1, options):
                    nxt = x.choices[:i] + [alt]
                    (todo if cost == level else levels.setdefault(cost, [])).append(nxt)
    return n, True
