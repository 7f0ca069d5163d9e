"""C16: optimizer failures surface as documented, memory stays sound."""
import ctypes
import fcntl
import hashlib
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import warnings

import numpy as np

from mc import env
from pyuoi.lbfgs import fmin_lbfgs, AllZeroLBFGSError
from pyuoi.lbfgs._lowlevel import LBFGSError

PROPERTY = 'C16'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('exhaustive fault enumeration on the real optimizer: every '
             'callback answer and every failing allocation, one and two '
             'faults deep, under a guard-page allocator; every callback '
             'exception position through the Python wrapper')
BOUNDS = {
    'quick': 'C library: 3 objectives x n in {1,3} x 4 line searches x m in '
             '{1,3} x C in {0,.2} x 3 starts x 2 histories x 2 limits; 12 '
             'kinds of bad answer at each of the first 25 evaluations, once '
             'or for ever; every failing allocation; every cancelled report '
             'x 7 codes; all pairs of faults at distance <= 3 for n=1. '
             'Python: exceptions of 6 types at every callback call, every '
             'invalid option, limits 1..8; in the extension under a guarded '
             'allocator every failing allocation (once, for ever) and '
             'callbacks that keep and overwrite all their arrays, with every '
             'way to end',
    'thorough': 'n in {1,2,3,8}, m in {1,2,3,6}, evaluations up to 60, pairs '
                'of faults at distance <= 8'}
RULE = ('a run is distinct when its outcome code, number of evaluations, '
        'number of iterations, line search or memory size differ')
ASSUMPTIONS = ['the C library is compiled from /repo/liblbfgs with malloc and '
               'free renamed (guard pages, live-block count) and the undefined '
               'behaviour sanitizer; callbacks that answer unbounded or '
               'contradicting values for ever are only run with an iteration '
               'limit, since no termination is promised for them']
SEARCHES = ('default', 'morethuente', 'armijo', 'wolfe', 'strongwolfe')


def driver():
    lib = os.path.join(env.REPO, 'liblbfgs')
    src = os.path.join(env.VERIF, 'native', 'faults.c')
    h = hashlib.sha256(open(src, 'rb').read())
    for f in sorted(os.listdir(lib)):
        h.update(f.encode())
        with open(os.path.join(lib, f), 'rb') as g:
            h.update(g.read())
    out = os.path.join(env.BUILD, 'faults-' + h.hexdigest()[:16])
    exe = os.path.join(out, 'faults')
    os.makedirs(env.BUILD, exist_ok=True)
    with open(os.path.join(env.BUILD, 'faults.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        obj = os.path.join(tmp, 'lbfgs.o')
        flags = ['-O1', '-g', '-fsanitize=undefined', '-w', '-I' + lib]
        subprocess.run(
            ['gcc'] + flags + ['-fno-sanitize-recover=undefined',
                               '-Dmalloc=vp_malloc', '-Dfree=vp_free',
                               '-Dcalloc=vp_calloc', '-Drealloc=vp_realloc',
                               '-c', os.path.join(lib, 'lbfgs.c'), '-o', obj],
            check=True)
        subprocess.run(['gcc'] + flags + [src, obj, '-lm', '-o',
                                          os.path.join(tmp, 'faults')],
                       check=True)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return exe


def unit_native(rec, mode, obj, n, ls, m, C, deep):
    cmd = [driver(), mode, str(obj), str(n), str(ls), str(m), str(C),
           str(deep)]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace')
        rec.fail('native-hang', 'no end: %s' % out[-300:], cmd=cmd[1:])
        return
    done = None
    for line in r.stdout.splitlines():
        if line.startswith('BAD '):
            _, key, msg = line.split(' ', 2)
            rec.fail('native-' + key, msg, cmd=cmd[1:])
        elif line.startswith('DONE '):
            done = dict(kv.split('=') for kv in line.split()[1:])
    if 'runtime error' in r.stderr:
        rec.fail('native-undefined', r.stderr[:300], cmd=cmd[1:])
    if rec.violations:
        return
    if r.returncode or done is None:
        rec.fail('native-crash', 'exit %s: %s' % (r.returncode,
                                                  r.stderr[-300:]),
                 cmd=cmd[1:])
        return
    rec.step(int(done['evals']))
    rec.trace(int(done['runs']))
    for k in range(int(done['states'])):
        rec.state(mode, obj, n, ls, m, C, k)
    rec.sample(mode=mode, objective=obj, n=n, linesearch=ls, m=m, C=C, **done)


def unit_guarded(rec, mode, k, obj):
    """The extension itself with the guarded allocator: every failing
    allocation, and callbacks that keep their arrays."""
    so = env.build_ext(guarded=True)
    r = subprocess.run(
        [sys.executable, '-W', 'ignore', '-m', 'mc.guarded', mode, str(k),
         str(obj)], cwd=env.VERIF, capture_output=True, text=True,
        timeout=300, env=dict(os.environ, VERIF_GUARDED_EXT=so,
                              PYTHONPATH=env.VERIF))
    done, at, opt = None, None, None
    for line in r.stdout.splitlines():
        d = json.loads(line)
        if 'option' in d:
            opt = d['option']
        elif 'step' in d:
            at = d
        elif 'bad' in d:
            rec.fail('guarded-' + d['bad'], d['msg'], options=opt, problem=k,
                     obj=obj, **{x: d[x] for x in d if x not in (
                         'bad', 'msg')})
        elif 'done' in d:
            done = d
    if done is None:
        rec.fail('guarded-crash', 'exit %s in %s: %s' % (
            r.returncode, at, r.stderr[-300:]), options=opt, problem=k,
            obj=obj)
        return
    rec.step(done['done'])
    rec.trace(done['done'])
    for o, n in done['states']:
        for i in range(n):
            rec.state(mode, k, obj, o, i)


# --- through the Python wrapper ---------------------------------------------

def prob(k):
    """(name, value, gradient, start)"""
    A = np.array([[3., .5], [.5, 1.]])
    c = np.array([1., -2.])
    if k == 0:
        return ('quad', lambda x: .5 * (x - c).dot(A).dot(x - c),
                lambda x: A.dot(x - c), np.array([4., 4.]))
    if k == 1:
        return ('rosen',
                lambda x: 100 * (x[1] - x[0] ** 2) ** 2 + (1 - x[0]) ** 2,
                lambda x: np.array([-400 * x[0] * (x[1] - x[0] ** 2)
                                    - 2 * (1 - x[0]),
                                    200 * (x[1] - x[0] ** 2)]),
                np.array([-1.2, 1.]))
    return ('quart', lambda x: (x ** 4).sum() + x[0],
            lambda x: 4 * x ** 3 + np.array([1.]), np.array([3.]))


class Odd(BaseException):
    pass


KINDS = (ValueError, ZeroDivisionError, KeyboardInterrupt, StopIteration,
         Odd, MemoryError)


def call(f, x0, **kw):
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter('always')
        r = fmin_lbfgs(f, x0, **kw)
    return r, [str(w.message) for w in W
               if not issubclass(w.category, DeprecationWarning)]


def works(k, opt):
    """The optimizer may give up on a non-convex problem, or take long."""
    _, fv, gv, x0 = prob(k)
    n = [0]

    def f(x, g):
        n[0] += 1
        if n[0] > 70:
            raise LBFGSError
        g[...] = gv(x)
        return fv(x)
    try:
        call(f, x0, **opt)
    except LBFGSError:
        return False
    return True


def options(k):
    """Solver settings under which faults are enumerated."""
    out = [dict(line_search=ls) for ls in SEARCHES]
    out.append(dict(orthantwise_c=.3, line_search='wolfe'))
    out.append(dict(line_search='wolfe', past=2, delta=1e-6))
    out.append(dict(m=1))
    out = [o for o in out if works(k, o)]
    assert len(out) >= 3, len(out)
    return out


def unit_raise(rec, k):
    """An exception at every call of either callback reaches the caller."""
    name, fv, gv, x0 = prob(k)
    for opt in options(k):
        count = [0, 0]

        def f(x, g):
            count[0] += 1
            g[...] = gv(x)
            return fv(x)

        def p(*a):
            count[1] += 1
        base, _ = call(f, x0, progress=p, **opt)
        total = tuple(count)
        for which, at in [(0, i) for i in range(1, total[0] + 1)] + \
                         [(1, i) for i in range(1, total[1] + 1)]:
            for exc in KINDS:
                calls = [0, 0]
                first = []

                def hit(w):
                    calls[w] += 1
                    if w == which and calls[w] >= at or first:
                        e = exc('%d %d' % tuple(calls))
                        first.append(e)
                        raise e

                def f2(x, g):
                    hit(0)
                    g[...] = gv(x)
                    return fv(x)

                def p2(*a):
                    hit(1)
                rec.step(sum(calls) + 1)
                rec.trace()
                start = x0.copy()
                try:
                    r = fmin_lbfgs(f2, start, progress=p2, **opt)
                    got = None
                except BaseException as e:
                    got = e
                info = dict(problem=name, options=opt, callback='fp'[which],
                            call=at, kind=exc.__name__)
                rec.check(got is not None and got is first[0],
                          'python-exception',
                          'raised %r at call %d of %s, caller got %r'
                          % (exc.__name__, at, 'fp'[which], got), **info)
                rec.check(np.array_equal(start, x0), 'python-start',
                          'start point changed', **info)
                rec.state(name, sorted(opt.items()), which, at, exc.__name__)
        # and the optimizer is usable afterwards
        again, _ = call(f, x0, progress=p, **opt)
        rec.check(np.array_equal(again, base), 'python-after',
                  'result %s after failed calls, %s before' % (again, base),
                  problem=name, options=opt)
    rec.sample(problem=name, evaluations=total[0], reports=total[1])


def unit_stop(rec, k):
    """Every progress value, at every report."""
    name, fv, gv, x0 = prob(k)

    def f(x, g):
        g[...] = gv(x)
        return fv(x)
    for opt in options(k):
        n = [0]

        def p(*a):
            n[0] += 1
        base, _ = call(f, x0, progress=p, **opt)
        total = n[0]
        for at in range(1, total + 2):
            for v in (None, 0, False, 0., 1, -1, 2, 7, True, 1.5, -1001,
                      -1000, -998, -1024, -2048, 10 ** 12, np.int64(3)):
                n[0] = 0

                def p2(*a):
                    n[0] += 1
                    return v if n[0] == at else None
                rec.step(at)
                rec.trace()
                try:
                    r = call(f, x0, progress=p2, **opt)[0]
                    got = None
                except BaseException as e:
                    got, r = e, None
                info = dict(problem=name, options=opt, report=at, value=v)
                if v is None or v == 0 or at > total:
                    rec.check(got is None and np.array_equal(r, base),
                              'python-continue', 'progress answered %r at %d:'
                              ' %r' % (v, at, got if got else r), **info)
                else:
                    want = AllZeroLBFGSError if v == -2048 else LBFGSError
                    rec.check(type(got) is want and n[0] == at,
                              'python-stop', 'progress answered %r at %d: '
                              '%r after %d reports' % (v, at, got, n[0]),
                              **info)
                rec.state(name, sorted(opt.items()), at, repr(v))
    # answers that are not numbers at all are errors of the caller
    for opt in options(k):
        for v in ('text', [1], {}, object()):
            for at in (1, 2):
                n[0] = 0

                def p3(*a):
                    n[0] += 1
                    return v if n[0] == at else None
                try:
                    fmin_lbfgs(f, x0, progress=p3, **opt)
                    got = None
                except BaseException as e:
                    got = e
                rec.step()
                rec.check(isinstance(got, Exception) or total < at,
                          'python-progress-type',
                          'progress answered %r: no error' % (v,))
        for v in ('text', None, [1, 2], object(), 1j):
            for at in (1, 2, 3):
                n[0] = 0

                def f3(x, g):
                    n[0] += 1
                    g[...] = gv(x)
                    return v if n[0] == at else fv(x)
                try:
                    fmin_lbfgs(f3, x0, **opt)
                    got = None
                except BaseException as e:
                    got = e
                rec.step()
                rec.check(isinstance(got, Exception) or n[0] < at,
                          'python-value-type',
                          'the objective answered %r: no error' % (v,))


INVALID = [('m', 0), ('m', -1), ('m', -7), ('epsilon', -1e-9), ('past', -1),
           ('delta', -1e-9), ('max_linesearch', 0), ('max_linesearch', -3),
           ('min_step', -1.), ('max_step', 1e-21), ('ftol', -1e-4),
           ('gtol', -.5), ('xtol', -1e-30), ('orthantwise_c', -1.),
           ('line_search', 'newton'), ('line_search', 'Wolfe'),
           ('line_search', None), ('line_search', 2)]


def unit_invalid(rec):
    for k in range(3):
        name, fv, gv, x0 = prob(k)
        calls = [0]

        def f(x, g):
            calls[0] += 1
            g[...] = gv(x)
            return fv(x)
        todo = [({}, o, v) for o, v in INVALID]
        for ls in ('wolfe', 'strongwolfe'):
            todo += [(dict(line_search=ls), 'wolfe', v)
                     for v in (1e-4, 1e-5, 1., 2.)]
        todo += [(dict(orthantwise_c=.1), 'orthantwise_start', v)
                 for v in (-1, -5, len(x0) + 1)]
        todo += [(dict(orthantwise_c=.1), 'orthantwise_end', v)
                 for v in (len(x0) + 1, 100)]
        todo += [(dict(orthantwise_c=.1), o, v) for o, v in INVALID
                 if o not in ('line_search', 'orthantwise_c')]
        for base, opt, v in todo:
            calls[0] = 0
            start = x0.copy()
            try:
                call(f, start, **dict(base, **{opt: v}))
                got = None
            except Exception as e:
                got = e
            rec.step()
            rec.trace()
            info = dict(problem=name, base=base, option=opt, value=v)
            rec.check(got is not None, 'python-invalid',
                      '%s=%r accepted' % (opt, v), **info)
            rec.check(not calls[0], 'python-invalid-eval',
                      '%s=%r: the objective was evaluated' % (opt, v), **info)
            rec.check(not isinstance(got, LBFGSError)
                      or re.search(r'\b%s\b' % opt, str(got)),
                      'python-invalid-name', '%s=%r: %r' % (opt, v, got),
                      **info)
            rec.check(np.array_equal(start, x0), 'python-start', '', **info)
            rec.state(name, base, opt, v)
        for bad in (None, 3, 'f'):
            try:
                fmin_lbfgs(bad, x0)
                got = None
            except Exception as e:
                got = e
            rec.check(isinstance(got, TypeError), 'python-callable', '%r' % got)
            if bad is None:
                continue
            calls[0] = 0
            try:
                fmin_lbfgs(f, x0, progress=bad)
                got = None
            except Exception as e:
                got = e
            rec.check(isinstance(got, TypeError) and not calls[0]
                      and type(bad).__name__ in str(got),
                      'python-callable', '%r' % got)
        for empty in ([], np.zeros((0, 3)), np.zeros((2, 0))):
            calls[0] = 0
            try:
                fmin_lbfgs(f, empty)
                got = None
            except Exception as e:
                got = e
            rec.check(isinstance(got, LBFGSError) and not calls[0],
                      'python-empty', '%r' % got)
        for text in (['a', 'b'], [None], [{}]):
            try:
                fmin_lbfgs(f, text)
                got = None
            except Exception as e:
                got = e
            rec.check(got is not None and not calls[0], 'python-start-type',
                      '%r accepted as a start' % (text,))
    rec.sample(invalid=len(todo))


def unit_limits(rec, k):
    """Limits return the best point, with a warning."""
    name, fv, gv, x0 = prob(k)
    for opt in options(k):
        C = opt.get('orthantwise_c', 0.)

        def F(x):
            return fv(x) + C * np.abs(x).sum()
        pts = []
        ev = [0]

        def f(x, g):
            ev[0] += 1
            g[...] = gv(x)
            return fv(x)

        def p(x, g, fx, xn, gn, step, it, ls):
            pts.append(np.array(x))
        base, W0 = call(f, x0, progress=p, **opt)
        path = list(pts)
        for lim in range(1, len(path) + 3):
            for key in ('max_iterations', 'max_linesearch'):
                pts[:] = []
                ev[0] = 0
                r, W = call(f, x0, progress=p, **dict(opt, **{key: lim}))
                rec.step(ev[0])
                rec.trace()
                rec.state(name, sorted(opt.items()), key, lim)
                info = dict(problem=name, options=opt, limit=lim, which=key)
                best = min([F(x0)] + [F(q) for q in pts])
                rec.check(F(r) <= best + 1e-12 * (1 + abs(best)),
                          'python-limit-best', 'objective %r returned, %r seen'
                          % (F(r), best), **info)
                if key == 'max_iterations':
                    rec.check(len(pts) == min(lim, len(path)) and all(
                        np.array_equal(a, b) for a, b in zip(pts, path)),
                        'python-limit-path', '%d iterations with limit %d of '
                        '%d' % (len(pts), lim, len(path)), **info)
                    if pts:
                        rec.check(np.array_equal(r, pts[-1]),
                                  'python-limit-last', '', **info)
                    if lim < len(path):
                        rec.check(any('iterations' in w for w in W),
                                  'python-limit-warning', 'no warning: %s' % W,
                                  **info)
                    else:
                        rec.check(np.array_equal(r, base), 'python-limit-none',
                                  '', **info)
                elif not W:
                    pg = gv(r)
                    if C:
                        pg = np.where(r != 0, pg + C * np.sign(r), np.sign(pg)
                                      * np.maximum(np.abs(pg) - C, 0))
                    eps = 1e-5 * max(1, np.linalg.norm(r))
                    rec.check('past' in opt or np.linalg.norm(pg)
                              <= eps * 1.001, 'python-limit-silent',
                              'gradient %s without a warning' % pg, **info)
        # an immediately optimal start
        x1, W = call(f, base, **opt)
        if not W0 and 'past' not in opt:
            rec.check(np.array_equal(x1, base) and not W, 'python-optimal',
                      'restart at the optimum moved to %s (%s)' % (x1, W),
                      problem=name, options=opt)
    rec.sample(problem=name, iterations=len(path))


def unit_delta(rec, k):
    name, fv, gv, x0 = prob(k)
    for past, delta, ls, C in itertools.product(
            (1, 2, 3, 5), (1e-8, 1e-4, 1e-2, .5), SEARCHES, (0., .3)):
        vals = []
        if not works(k, dict(line_search='wolfe' if C else ls, epsilon=1e-12,
                             orthantwise_c=C, max_iterations=200)):
            continue

        def f(x, g):
            g[...] = gv(x)
            return fv(x) + 5.

        def p(x, g, fx, *a):
            vals.append(fx)
        f0 = fv(x0) + 5. + C * np.abs(x0).sum()
        r, W = call(f, x0, progress=p, past=past, delta=delta, epsilon=1e-12,
                    line_search='wolfe' if C else ls, orthantwise_c=C,
                    max_iterations=200)
        rec.step(len(vals))
        rec.trace()
        rec.state(name, past, delta, ls, C)
        hist = [f0] + vals
        # stop at the first k>=past with (f' - f)/f < delta
        stop = None
        for i in range(past, len(hist)):
            if (hist[i - past] - hist[i]) / hist[i] < delta * (1 - 1e-9):
                stop = i
                break
        info = dict(problem=name, past=past, delta=delta, line_search=ls, C=C)
        if stop is not None:
            rec.check(len(vals) <= stop + 1, 'python-delta-late',
                      'went on to iteration %d, the decrease test held at %d'
                      % (len(vals), stop), **info)
            if len(vals) >= stop:
                rec.check(not W, 'python-delta-warning', '%s' % W, **info)
        elif not W and len(vals) < 200:
            pg = gv(r)
            if C:
                pg = np.where(r != 0, pg + C * np.sign(r), np.sign(pg)
                              * np.maximum(np.abs(pg) - C, 0))
            i = len(hist) - 1
            ok = np.linalg.norm(pg) <= 1e-10 or (
                i >= past and (hist[i - past] - hist[i]) / hist[i]
                < delta * (1 + 1e-9))
            rec.check(ok, 'python-delta-early', 'stopped after %d iterations '
                      'with gradient %s' % (len(vals), pg), **info)


def unit_nested(rec):
    """Calls made from inside callbacks do not disturb each other."""
    for k, j in itertools.product(range(3), repeat=2):
        name, fv, gv, x0 = prob(k)
        name2, fv2, gv2, y0 = prob(j)

        def f2(x, g):
            g[...] = gv2(x)
            return fv2(x)

        def f(x, g):
            g[...] = gv(x)
            return fv(x)
        base, inner = fmin_lbfgs(f, x0), fmin_lbfgs(f2, y0)
        for mode in ('value', 'fail', 'progress'):
            got = []

            def go():
                try:
                    def f4(x, g):
                        if mode == 'fail' and len(got) % 2:
                            raise ValueError('inner')
                        return f2(x, g)
                    got.append(fmin_lbfgs(f4, y0))
                except ValueError:
                    got.append(None)

            def f3(x, g):
                if mode != 'progress':
                    go()
                return f(x, g)

            def p(*a):
                if mode == 'progress':
                    go()
            r = fmin_lbfgs(f3, x0, progress=p)
            rec.step(len(got))
            rec.trace()
            rec.check(np.array_equal(r, base), 'python-nested-outer',
                      '%s: %s, alone %s' % (mode, r, base))
            rec.check(all(v is None and mode == 'fail' or
                          np.array_equal(v, inner) for v in got) and got,
                      'python-nested-inner', '%s: %s' % (mode, got))
            rec.state(k, j, mode)


def unit_codes(rec, ls, C):
    """Which line search failures are errors, and which only warnings: an
    objective that no step decreases (it is flat, its gradient is not) or
    that every step decreases, against every pair of limits."""
    for grad, n in itertools.product((.5, 1., 3.), (1, 2)):
        def up(x, g):
            g[...] = -grad
            return float(np.sum(np.abs(x)) * 1e-3 * (x != 0).any() + 1.)

        def down(x, g):
            g[...] = -grad
            return float(-grad * x.sum())
        norm = max(grad - C, 0.) * np.sqrt(n)
        if not norm:
            continue
        for kind, lim in itertools.product(('up', 'down'), range(1, 16)):
            if kind == 'down' and (ls in ('armijo',) or C):
                continue
            for bound in (3e-1, 3e-2, 3e-3, 3e-4, 3e-5, 1e-20) \
                    if kind == 'up' else (1e1, 1e2, 1e3, 1e4, 1e20):
                evals = [0]

                def f(x, g):
                    evals[0] += 1
                    return (up if kind == 'up' else down)(x, g)
                opt = dict(line_search=ls, max_linesearch=lim,
                           orthantwise_c=C)
                opt['min_step' if kind == 'up' else 'max_step'] = bound
                try:
                    r, W = call(f, np.zeros(n), **opt)
                    got = 'warning' if W else 'silent'
                except LBFGSError as e:
                    r, W, got = None, [str(e)], 'error'
                # the trial steps, until a limit is passed
                step, want, k = 1. / norm, None, 0
                ratio = .5 if kind == 'up' else 2.1
                while want is None:
                    k += 1
                    step_ok = step >= bound if kind == 'up' else step <= bound
                    if not step_ok:
                        want = 'error'
                    elif k >= lim:
                        want = 'warning'
                    step *= ratio
                rec.step(evals[0])
                rec.trace()
                info = dict(options=opt, kind=kind, gradient=grad, n=n)
                rec.state(ls, C, kind, grad, n, lim, bound, got)
                rec.check(got == want, 'python-code-%s' % kind,
                          '%s after %d evaluations (%s), expected %s'
                          % (got, evals[0], W, want), **info)
                if got == 'warning' and kind == 'up':
                    rec.check(np.array_equal(r, np.zeros(n)),
                              'python-code-point', 'returned %s' % r, **info)
    rec.sample(line_search=ls, C=C)


def resident():
    class M(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in
                    'arena ordblks smblks hblks hblkhd usmblks fsmblks '
                    'uordblks fordblks keepcost'.split()]
    libc = ctypes.CDLL(None)
    if not hasattr(libc, 'mallinfo2'):
        return None
    libc.mallinfo2.restype = M
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def unit_memory(rec):
    """No exit path keeps memory: 50 calls must cost less than one vector."""
    n = 20000

    def good(x, g):
        g[...] = x - 1
        return .5 * ((x - 1) ** 2).sum()

    def bad(x, g):
        raise ValueError

    def late(x, g, *a):
        raise ValueError

    paths = {
        'success': lambda: fmin_lbfgs(good, np.zeros(n)),
        'optimal': lambda: fmin_lbfgs(good, np.ones(n)),
        'raise': lambda: fmin_lbfgs(bad, np.zeros(n)),
        'raise-progress': lambda: fmin_lbfgs(good, np.zeros(n),
                                             progress=late),
        'stop': lambda: fmin_lbfgs(good, np.zeros(n), progress=lambda *a: 1),
        'allzero': lambda: fmin_lbfgs(good, np.zeros(n),
                                      progress=lambda *a: -2048),
        'limit': lambda: fmin_lbfgs(good, np.zeros(n), max_iterations=1),
        'invalid': lambda: fmin_lbfgs(good, np.zeros(n), m=0),
        'invalid-epsilon': lambda: fmin_lbfgs(good, np.zeros(n), epsilon=-1.),
        'l1': lambda: fmin_lbfgs(good, np.zeros(n), orthantwise_c=.1),
        'past': lambda: fmin_lbfgs(good, np.zeros(n), past=3, delta=.1),
        'type': lambda: fmin_lbfgs(lambda x, g: 'a', np.zeros(n)),
    }
    if resident() is None:
        rec.note('no-mallinfo')
        rec.step()
        return
    import gc
    for name, fn in paths.items():
        def once():
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    fn()
                except Exception:
                    pass
        for _ in range(3):
            once()
        gc.collect()
        before = resident()
        for _ in range(50):
            once()
        gc.collect()
        grown = resident() - before
        rec.step(53)
        rec.trace()
        rec.state(name)
        rec.check(grown < 50 * n * 8 / 4, 'python-leak',
                  '%s: %d bytes after 50 calls on %d variables'
                  % (name, grown, n), path=name)
    rec.sample(paths=sorted(paths))


def units(tier):
    big = tier == 'thorough'
    u = []
    ns = (1, 2, 3, 8) if big else (1, 3)
    ms = (1, 2, 3, 6) if big else (1, 3)
    for obj, n, m in itertools.product(range(3), ns, ms):
        for ls, C in [(i, 0.) for i in range(4)] + [(2, .2)]:
            for mode in ('alloc', 'cancel', 'eval') + (
                    ('params',) if m == ms[0] else ()):
                u.append(('c-%s-%d-n%d-m%d-ls%d-C%g' % (mode, obj, n, m, ls, C),
                          unit_native, (mode, obj, n, ls, m, C, int(big))))
            if n <= (3 if big else 1) and m == ms[-1]:
                u.append(('c-eval2-%d-n%d-m%d-ls%d-C%g' % (obj, n, m, ls, C),
                          unit_native, ('eval2', obj, n, ls, m, C, int(big))))
    u.append(('py-invalid', unit_invalid, ()))
    u.append(('py-nested', unit_nested, ()))
    u.append(('py-memory', unit_memory, ()))
    for k in range(3):
        for obj in (0, 1):
            for mode in ('alloc', 'kept'):
                u.append(('py-%s-%d-%d' % (mode, k, obj), unit_guarded,
                          (mode, k, obj)))
    for ls in ('armijo', 'wolfe', 'strongwolfe'):
        u.append(('py-codes-%s' % ls, unit_codes, (ls, 0.)))
    u.append(('py-codes-l1', unit_codes, ('wolfe', .3)))
    for k in range(3):
        u.append(('py-raise-%d' % k, unit_raise, (k,)))
        u.append(('py-stop-%d' % k, unit_stop, (k,)))
        u.append(('py-limits-%d' % k, unit_limits, (k,)))
        u.append(('py-delta-%d' % k, unit_delta, (k,)))
    return u
