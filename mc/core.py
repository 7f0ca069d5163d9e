"""Exploration core.

A check is a list of *units*; a unit is one finite, exhaustively enumerated
sub-space, explored in its own worker process with a time limit.  The unit gets
a `Rec`, through which it counts what it explores and reports violations.

`explore(run)` is the stateless explorer: `run(ch)` executes one complete
behaviour, asking `ch.pick(n)` at every point where the environment has n
possible answers; the explorer replays prefixes and enumerates every
alternative (optionally only those with at most `bound` departures from the
default answer 0).
"""
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import re
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOL = 12


def canon(o):
    """Canonical, hashable-by-repr form of an observed value."""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ['nd', o.shape, [canon(v) for v in o.ravel()]]
        return ['nd', str(o.dtype.kind), o.shape,
                hashlib.blake2b(np.ascontiguousarray(o).tobytes(),
                                digest_size=8).hexdigest()]
    if isinstance(o, (list, tuple)):
        return [canon(v) for v in o]
    if isinstance(o, dict):
        return [[canon(k), canon(o[k])] for k in sorted(o, key=repr)]
    if isinstance(o, (set, frozenset)):
        return sorted((repr(canon(v)) for v in o))
    if isinstance(o, np.generic):
        return o.item()
    return o


def digest(*key):
    return hashlib.blake2b(repr(canon(list(key))).encode(),
                           digest_size=8).digest()


def jsonable(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)


class Divergence(Exception):
    pass


class Choices(object):
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []
        self.picks = []

    def pick(self, n, label=None):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise Divergence('choice %d of %d at point %d (%s)'
                             % (c, n, i, label))
        self.points.append(n)
        self.picks.append(c)
        return c


def explore(run, rec=None, bound=None, limit=None):
    """Run every behaviour; returns (executions, capped)."""
    stack = [[]]
    n = 0
    while stack:
        if limit is not None and n >= limit:
            return n, True
        prefix = stack.pop()
        ch = Choices(prefix)
        run(ch)
        n += 1
        if len(ch.picks) < len(prefix) or ch.picks[:len(prefix)] != prefix:
            raise Divergence('replay of %r ended as %r' % (prefix, ch.picks))
        if rec is not None:
            rec.step(len(ch.picks) - len(prefix) + 1)
        dev0 = sum(1 for c in ch.picks[:len(prefix)] if c)
        new = []
        for i in range(len(prefix), len(ch.points)):
            if bound is not None and dev0 + 1 > bound:
                break
            for alt in range(1, ch.points[i]):
                new.append(ch.picks[:i] + [alt])
        stack.extend(reversed(new))
    return n, False


class ChildFailed(Exception):
    pass


class ChildDied(ChildFailed):
    pass


def in_child(fn, *args, **kw):
    """fn(*args) in a forked child, so that it leaves no trace here."""
    try:
        return _in_child(fn, *args, **kw)
    except ChildDied:
        # (what really kills a child does it again)
        return _in_child(fn, *args, **kw)


def _in_child(fn, *args, **kw):
    timeout = kw.pop('timeout', 60)
    a, b = mp.Pipe(False)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            a.close()
            try:
                out = (True, fn(*args))
            except BaseException:
                out = (False, traceback.format_exc()[-3000:])
            b.send(out)
            b.close()
            code = 0
        finally:
            os._exit(code)
    b.close()
    try:
        if not a.poll(timeout):
            os.kill(pid, signal.SIGKILL)
            raise ChildFailed('no answer after %s s' % timeout)
        try:
            ok, out = a.recv()
        except EOFError:
            raise ChildDied('child died')
    finally:
        a.close()
        os.waitpid(pid, 0)
    if not ok:
        raise ChildFailed(out)
    return out


class TooMany(Exception):
    pass


class Rec(object):
    def __init__(self, unit):
        self.unit = unit
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self._vkeys = set()
        self.notes = {}
        self.capped = False

    def state(self, *key):
        d = digest(*key)
        new = d not in self.states
        self.states.add(d)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(kw))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, key, msg, **data):
        """Report a violation. `key` names what failed, stably."""
        if key in self._vkeys:
            return
        self._vkeys.add(key)
        self.violations.append(dict(key=key, msg=msg, unit=self.unit,
                                    data=jsonable(data)))
        if len(self.violations) >= MAX_VIOL:
            raise TooMany()

    def check(self, ok, key, msg='', **data):
        if not ok:
            self.fail(key, msg, **data)
        return bool(ok)

    def pack(self):
        return dict(unit=self.unit, states=self.states,
                    transitions=self.transitions, traces=self.traces,
                    samples=self.samples, violations=self.violations,
                    notes=self.notes, capped=self.capped)


def run_unit(mod, name, fn, args):
    rec = Rec(name)
    t = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                fn(rec, *args)
    except TooMany:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in tb:
            if '/pyuoi/' in fr.filename:
                where = '%s:%s' % (os.path.basename(fr.filename), fr.name)
        rec.violations.append(dict(
            key='exception:%s:%s' % (type(e).__name__, where or 'harness'),
            msg='unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
            unit=name, data=dict(traceback=traceback.format_exc()[-3000:])))
    out = rec.pack()
    out['wall'] = time.time() - t
    return out


def _worker(conn, mod, units):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    while True:
        try:
            i = conn.recv()
        except EOFError:
            return
        if i is None:
            return
        name, fn, args = units[i]
        conn.send((i, run_unit(mod, name, fn, args)))


class Pool(object):
    def __init__(self, n, mod, units, unit_timeout):
        self.n, self.mod, self.units = n, mod, units
        self.timeout = unit_timeout
        self.workers = []

    def spawn(self):
        a, b = mp.Pipe()
        p = mp.Process(target=_worker, args=(b, self.mod, self.units),
                       daemon=False)
        p.start()
        b.close()
        w = dict(p=p, c=a, job=None, t=0)
        self.workers.append(w)
        return w

    def kill(self, w):
        self.workers.remove(w)
        try:
            os.kill(w['p'].pid, signal.SIGKILL)
        except OSError:
            pass
        w['p'].join()
        w['c'].close()

    def run(self, deadline=None, hard=None, max_viol=40):
        todo = list(range(len(self.units)))
        results = []
        cut = []
        nviol = 0
        stop = False
        while True:
            while (todo and not stop and len(self.workers) < self.n
                   and len(self.workers) < len(todo) + sum(
                       1 for w in self.workers if w['job'] is not None)):
                self.spawn()
            for w in self.workers:
                if w['job'] is None and todo and not stop:
                    if deadline and time.time() > deadline:
                        stop = True
                        break
                    i = todo.pop(0)
                    w['job'], w['t'] = i, time.time()
                    w['c'].send(i)
            busy = [w for w in self.workers if w['job'] is not None]
            if not busy:
                break
            ready = mpc.wait([w['c'] for w in busy], timeout=1.0)
            for w in list(busy):
                name = self.units[w['job']][0]
                if w['c'] in ready:
                    try:
                        _, res = w['c'].recv()
                        w['job'] = None
                        if getattr(self.mod, 'FRESH_WORKERS', False):
                            self.kill(w)
                    except (EOFError, OSError):
                        code = None
                        w['p'].join(5)
                        code = w['p'].exitcode
                        self.kill(w)
                        res = dict(unit=name, states=set(), transitions=0,
                                   traces=0, samples=[], notes={},
                                   capped=False, wall=time.time() - w['t'],
                                   violations=[dict(
                                       key='crash:%s' % name,
                                       msg='worker died (exit %s)' % code,
                                       unit=name, data={})])
                elif time.time() - w['t'] > self.timeout:
                    self.kill(w)
                    stop = True
                    res = dict(unit=name, states=set(), transitions=0,
                               traces=0, samples=[], notes={}, capped=True,
                               wall=self.timeout,
                               violations=[dict(
                                   key='hang:%s' % name,
                                   msg='no result after %d s' % self.timeout,
                                   unit=name, data={})])
                elif hard and time.time() > hard:
                    # out of time: not explored, and reported as such
                    self.kill(w)
                    stop = True
                    cut.append(name)
                    continue
                else:
                    continue
                results.append(res)
                nviol += len(res['violations'])
                if nviol >= max_viol:
                    stop = True
            if stop and nviol:
                break
        for w in list(self.workers):
            if w['job'] is None:
                try:
                    w['c'].send(None)
                except OSError:
                    pass
                w['p'].join(2)
            self.kill(w)
        return results, cut + ([self.units[i][0] for i in todo]
                               if stop else [])


def load_known():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return json.load(f)
    except OSError:
        return dict(findings=[], fixed=[])


def main(mod):
    """Entry point of a check module."""
    t0 = time.time()
    prop = mod.PROPERTY
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    argv = sys.argv[1:]
    if argv and argv[0] in ('quick', 'thorough'):
        tier = argv[0]
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rp = json.load(f)
        only, tier = rp['unit'], rp.get('tier', tier)
    if '--unit' in argv:
        only = argv[argv.index('--unit') + 1]
    units = [(n, f, a) for n, f, a in mod.units(tier)]
    names = [u[0] for u in units]
    assert len(set(names)) == len(names), 'duplicate unit names'
    if only:
        units = [u for u in units if u[0] == only]
    n = int(os.environ.get('VERIF_JOBS', '8'))
    limit = 840 if tier == 'thorough' else 600
    pool = Pool(n, mod, units, getattr(mod, 'UNIT_TIMEOUT', 240))
    results, skipped = pool.run(deadline=t0 + limit - 60, hard=t0 + limit)
    known = [k for k in load_known().get('findings', [])
             if k['property'] == prop]
    viol, seen_known = [], {}
    for r in results:
        for v in r['violations']:
            for k in known:
                if re.fullmatch(k['key'], v['key']):
                    seen_known.setdefault(k['key'], k)
                    break
            else:
                viol.append(v)
    states = set()
    for r in results:
        states |= r['states']
    notes = {}
    for r in results:
        for k, c in r['notes'].items():
            notes[k] = notes.get(k, 0) + c
    samples = []
    for r in results:
        for s in r['samples']:
            if len(samples) < 6:
                samples.append(dict(unit=r['unit'], **s))
    exhaustive = not skipped and not any(r['capped'] for r in results)
    trans = sum(r['transitions'] for r in results)
    traces = sum(r['traces'] for r in results)
    cov = dict(states=len(states), transitions=trans,
               traces_validated_against_impl=traces, samples=samples,
               exhaustive=bool(exhaustive), units=len(results),
               units_not_run=skipped, counters=notes,
               bounds=getattr(mod, 'BOUNDS', {}).get(tier, ''),
               slowest=sorted(((round(r['wall'], 2), r['unit'])
                               for r in results), reverse=True)[:3])
    if getattr(mod, 'LEVEL', 'model_checking') == 'fault_enumeration':
        cov.update(evaluations=traces, distinct_nontrivial=len(states),
                   rule=mod.RULE)
    ev = dict(property=prop, tier=tier, seed=seed,
              level=getattr(mod, 'LEVEL', 'model_checking'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d units, states=%d transitions=%d traces=%d '
          'exhaustive=%s wall=%.1fs' % (
              prop, tier, len(results), len(states), trans, traces,
              exhaustive, time.time() - t0))
    if notes:
        print('  counters: ' + json.dumps(notes, sort_keys=True))
    print('  slowest: %s' % cov['slowest'])
    if skipped:
        print('  not run for lack of time: %s' % ' '.join(skipped))
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for v in viol[:10]:
            v['property'], v['tier'] = prop, tier
            h = hashlib.sha256((v['key'] + v['unit']).encode()).hexdigest()[:10]
            path = os.path.join('replays', '%s-%s.json' % (prop, h))
            with open(os.path.join(VERIF, path), 'w') as f:
                json.dump(v, f, indent=1)
            print('  [%s] %s: %s' % (v['unit'], v['key'], v['msg'][:400]))
            if os.environ.get('VERIF_VERBOSE'):
                print(json.dumps(v['data'], indent=1)[:4000])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        return 1
    if not results or (trans == 0 and not only):
        print('nothing was explored')
        return 2
    return 0
