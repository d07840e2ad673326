"""Run the exploration of one property: python -m mc.run <id> [--replay FILE]"""
import fnmatch
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import resource
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def die_violation(pid, msg):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', pid + '-import.json')
    with open(path, 'w') as f:
        json.dump(dict(property=pid, message=msg), f, indent=1)
    print(msg)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.exit(1)


def worker(conn, pid, tier, seed, limit):
    import logging
    import numpy as np
    from mc import core
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('mc.' + pid.lower())

    def alarm(*a):
        raise core.NonTermination()
    signal.signal(signal.SIGALRM, alarm)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        unit, only = task
        ctx = core.Ctx(pid, tier, seed, unit, only)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            mod.run_unit(ctx, *unit)
        except core.NonTermination:
            if not ctx.violations:
                ctx.violation('unit %s' % (unit,), 'no answer within the time limit')
        except BaseException as e:
            ctx.violation('unit %s' % (unit,), 'raised %s: %s' % (type(e).__name__, e),
                          tb=traceback.format_exc(limit=-6))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        conn.send(ctx.result())


class Worker:
    def __init__(self, *args):
        self.conn, child = mp.Pipe()
        self.proc = mp.Process(target=worker, args=(child,) + args)
        self.proc.daemon = False
        self.proc.start()
        child.close()
        self.unit = None

    def give(self, unit, only):
        self.unit, self.since = unit, time.time()
        self.conn.send((unit, only))

    def kill(self):
        self.proc.kill()
        self.proc.join()
        self.conn.close()


def explore(pid, tier, seed, units, only=None, limit=300.):
    """Run all units on JOBS forked workers; a dead or hanging worker is a violation."""
    todo = list(units)[::-1]
    results = []
    n = min(JOBS, len(todo))
    new = lambda: Worker(pid, tier, seed, limit)
    workers = [new() for _ in range(n)]
    for w in workers:
        w.give(todo.pop(), only)
    stop = False
    while any(w.unit is not None for w in workers):
        busy = [w for w in workers if w.unit is not None]
        ready = mpc.wait([w.conn for w in busy], timeout=1.)
        for w in busy:
            res = None
            if w.conn in ready:
                try:
                    res = w.conn.recv()
                except (EOFError, ConnectionError):
                    res = 'died'
            elif time.time() - w.since > limit + 15:
                res = 'hangs'
            if res is None:
                continue
            if isinstance(res, str):
                unit = w.unit
                w.kill()
                results.append(dict(unit=list(unit), states=1, transitions=0, traces=0, checks=0,
                                    outcomes=[], samples=[], skipped=0, notes={},
                                    violations=[dict(unit=list(unit), key='unit %s' % (unit,),
                                                     message='the process running the code ' + res,
                                                     data={}, traceback=None)]))
                workers[workers.index(w)] = w = new()
            else:
                results.append(res)
            w.unit = None
            hang = any('no answer within' in v['message'] or 'running the code hangs' in v['message'] for v in results[-1]['violations'])
            if hang or sum(len(r['violations']) for r in results) >= int(os.environ.get('VERIF_STOP', 30)):
                stop = True
            if todo and not stop:
                w.give(todo.pop(), only)
    for w in workers:
        try:
            w.conn.send(None)
        except Exception:
            pass
    for w in workers:
        w.proc.join(5)
        if w.proc.is_alive():
            w.kill()
    return results, len(todo)


def known_findings(pid):
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                f = dict(x.split('=', 1) for x in line[6:].split('|')[0].split() if '=' in x)
                if f.get('property') == pid:
                    out.append((f['key'], line.split('|', 1)[1].strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        import robuststats
        if not os.path.abspath(robuststats.__file__).startswith(os.path.abspath(REPO) + os.sep):
            print('error: robuststats imported from', robuststats.__file__)
            sys.exit(3)
        mod = importlib.import_module('mc.' + pid.lower())
    except SystemExit:
        raise
    except Exception:
        die_violation(pid, 'the package cannot be imported:\n' + traceback.format_exc(limit=-6))
    only = None
    if '--replay' in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        tier = rep.get('tier', tier)
        units, only = [tuple(_tup(rep['unit']))], rep['key']
        if only.startswith('unit '):
            only = None
    else:
        units = [tuple(u) for u in mod.plan(tier)]
    limit = getattr(mod, 'LIMIT', {}).get(tier, 240. if tier == 'quick' else 3000.)
    results, left = explore(pid, tier, seed, units, only, limit)
    viol = [v for r in results for v in r['violations']]
    known = known_findings(pid)
    printed = set()
    fresh = []
    for v in viol:
        hit = [k for k in known if fnmatch.fnmatchcase(v['key'].replace(' ', '_'), k[0])]
        if hit:
            if hit[0] not in printed:
                printed.add(hit[0])
                print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][1]))
        else:
            fresh.append(v)
    # simplest first: units and cases are listed in order of growing size
    order = {json.dumps(list(u)): i for i, u in enumerate(units)}
    fresh.sort(key=lambda v: order.get(json.dumps(v['unit']), 1 << 30))
    outcomes = set(o for r in results for o in r['outcomes'])
    tot = lambda k: sum(r[k] for r in results)
    wall = time.time() - t0
    notes = {}
    for r in results:
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v if isinstance(v, (int, float)) else v
    complete = left == 0 and tot('skipped') == 0 and not viol
    samples = []
    step = max(1, len(results)//6)
    for r in sorted(results, key=lambda r: order.get(json.dumps(r['unit']), 0))[::step]:
        samples += r['samples'][:1]
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2),
        violations=len(fresh),
        coverage=dict(
            states=tot('states'), transitions=tot('transitions'),
            traces_validated_against_impl=tot('traces'),
            evaluations=tot('checks'), distinct_nontrivial=len(outcomes),
            rule=getattr(mod, 'RULE', '') or 'states: explored cases; transitions: executed operations of the real code',
            samples=samples[:8], units=len(units), exhaustive=bool(complete),
            bounds=mod.BOUNDS[tier] if hasattr(mod, 'BOUNDS') else '',
            **({'notes': notes} if notes else {})),
        assumptions=getattr(mod, 'ASSUMPTIONS', []))
    if '--replay' not in sys.argv:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(path + '.tmp', path)
    print('%s %s: %d states, %d transitions, %d traces, %d oracle evaluations, %d distinct outcomes, %d units, %.1f s'
          % (pid, tier, tot('states'), tot('transitions'), tot('traces'), tot('checks'), len(outcomes), len(units), wall))
    if fresh:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for i, v in enumerate(fresh[:10]):
            path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, i))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, **v), f, indent=1)
            if i < 3:
                print('  case %s: %s' % (v['key'], v['message'][:600]))
                if v['traceback']:
                    print('    ' + v['traceback'].strip().replace('\n', '\n    ')[-700:])
            if i == 0:
                first = path
        print('%d violating cases' % len(fresh))
        print('VIOLATION property=%s replay=%s' % (pid, first))
        sys.exit(1)
    sys.exit(0)


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x


if __name__ == '__main__':
    main()
