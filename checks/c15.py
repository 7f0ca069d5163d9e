"""C15: fmin_lbfgs returns a minimizer of f + C|x|, start point untouched."""
import itertools
import warnings

import numpy as np

from pyuoi.lbfgs import fmin_lbfgs

PROPERTY = 'C15'
TECHNIQUE = ('exhaustive enumeration of objectives, start points, shapes, '
             'line searches, memory sizes and penalized ranges; every call '
             'the optimizer makes is monitored and its result decided by the '
             'documented stopping test')
BOUNDS = {
    'quick': '24 convex objectives of 1-4 variables x 6 start points x 5 line '
             'searches x m in {1,2,3,10} x 3 tolerances; every penalized '
             'range x 5 strengths x starts; shapes (n,),(n,1),(1,n),(2,2) and '
             '5 element types; 7 delta tests x 3 iteration limits x 4 constant '
             'shifts (negative objectives); 16 line search constants',
    'thorough': 'every integer start point in {-2..2}^n, every 3-variable '
                'quadratic with eigenvalues in {.1,1,5} and optimum in '
                '{-1,0,2}^3'}
ASSUMPTIONS = ['objectives are convex with a minimum; a warned result (line '
               'search or iteration limit) only has to be no worse than the '
               'start, and is counted']
SEARCHES = ('default', 'morethuente', 'armijo', 'wolfe', 'strongwolfe')


class Objective(object):
    def __init__(self, name, f, g, n):
        self.name, self.f, self.g, self.n = name, f, g, n


def rot(n, k):
    """A fixed orthogonal matrix (Householder)."""
    v = np.arange(1., n + 1) + k
    v /= np.linalg.norm(v)
    return np.eye(n) - 2 * np.outer(v, v)


def quadratic(n, eig, c, k, scale=1.):
    Q = rot(n, k) if n > 1 else np.eye(1)
    A = scale * Q.dot(np.diag(eig)).dot(Q.T)
    c = np.asarray(c, float)
    return Objective('quad%d-%s-%s-%d-%g' % (n, eig, c, k, scale),
                     lambda x: .5 * (x - c).dot(A).dot(x - c) + 3.,
                     lambda x: A.dot(x - c), n)


def logistic(n, k):
    rng = np.random.RandomState(100 * n + k)
    X = rng.randn(12, n)
    y = np.where(np.arange(12) % 3 == 0, -1., 1.)
    lam = .05

    def f(x):
        return np.logaddexp(0, -y * X.dot(x)).mean() + lam / 2 * x.dot(x)

    def g(x):
        z = -y / (1 + np.exp(y * X.dot(x)))
        return X.T.dot(z) / 12 + lam * x
    return Objective('log%d-%d' % (n, k), f, g, n)


def poisson(n, k):
    rng = np.random.RandomState(7 * n + k)
    X = rng.randn(10, n) * .5
    y = np.arange(10) % 4
    return Objective(
        'poi%d-%d' % (n, k),
        lambda x: (np.exp(X.dot(x)) - y * X.dot(x)).mean(),
        lambda x: X.T.dot(np.exp(X.dot(x)) - y) / 10, n)


def quartic(n):
    c = np.arange(n) - .5
    return Objective(
        'quart%d' % n,
        lambda x: ((x - c) ** 4).sum() + .5 * ((x - c) ** 2).sum(),
        lambda x: 4 * (x - c) ** 3 + (x - c), n)


def objectives():
    out = []
    for n in (1, 2, 3, 4):
        out.append(quadratic(n, [1., .2, 3., 8.][:n], np.arange(n) - 1.3, 0))
        out.append(quadratic(n, [1.] * n, [2., 0., -.05, .3][:n], 1))
        out.append(quadratic(n, [.5, 20., 1., 2.][:n], [0.] * n, 2, 4.))
        out.append(logistic(n, 0))
        out.append(poisson(n, 1))
        out.append(quartic(n))
    return out


def starts(o):
    n = o.n
    alt = np.where(np.arange(n) % 2, -1., 1.)
    return [np.zeros(n), np.ones(n), -3. * alt, alt * 1e-3,
            np.r_[2., np.zeros(n - 1)], 10. * alt / (1 + np.arange(n))]


def pseudo(x, g, C, a, b):
    pg = g.copy()
    for i in range(a, b):
        if x[i] > 0:
            pg[i] += C
        elif x[i] < 0:
            pg[i] -= C
        elif g[i] > C:
            pg[i] -= C
        elif g[i] < -C:
            pg[i] += C
        else:
            pg[i] = 0.
    return pg


def shifted(o, by):
    """The same objective plus a constant (negative and huge values)."""
    return Objective('%s%+g' % (o.name, by), lambda x: o.f(x) + by, o.g, o.n)


def drive(rec, key, o, x0, C=0., a=0, b=-1, shape=None, dtype=float, eps=1e-5,
          allow_warn=False, order='C', **kw):
    """One monitored run; returns the flat result."""
    n = o.n
    shape = shape or (n,)
    e = n if b == -1 else b
    start = np.array(np.asarray(x0).astype(dtype).reshape(shape), order=order)
    keep = start.copy()
    s0 = keep.astype(float).ravel()
    st = dict(evals=0, k=0, last=None, bad=None)
    lay = (('C', C, 'range', (a, b)) if C else ()) + tuple(kw.items())

    def bad(what):
        if st['bad'] is None:
            st['bad'] = what

    def F(x):
        return o.f(x) + C * np.abs(x[a:e]).sum()

    seen = {}
    hist = [F(s0)]              # objective at iterations 0, 1, ..

    def f(x, g, *args):
        st['evals'] += 1
        if args != ('tok', 5):
            bad('arguments %r' % (args,))
        if x.shape != shape or g.shape != shape:
            bad('shape %s seen by the objective' % (x.shape,))
        xf = np.array(x, copy=True).ravel()
        if st['evals'] == 1 and not np.array_equal(xf, s0):
            bad('the first evaluation is not at the start point')
        g[...] = o.g(xf).reshape(shape)
        seen[xf.tobytes()] = True
        return o.f(xf)

    def progress(x, g, fx, xnorm, gnorm, step, k, ls, *args):
        xf = np.array(x, copy=True).ravel()
        gf = np.array(g, copy=True).ravel()
        if args != ('tok', 5):
            bad('progress arguments %r' % (args,))
        if x.shape != shape or g.shape != shape:
            bad('shape %s seen by progress' % (x.shape,))
        if xf.tobytes() not in seen:
            bad('progress reports a point that was never evaluated')
        if k != st['k'] + 1:
            bad('iteration %d reported after %d' % (k, st['k']))
        st['k'] = k
        if ls != st['evals'] - st.get('at', 1):
            bad('%d evaluations reported, %d made'
                % (ls, st['evals'] - st.get('at', 1)))
        st['at'] = st['evals']
        t = 1e-9
        if abs(fx - F(xf)) > t * (1 + abs(fx)):
            bad('objective %r reported, it is %r' % (fx, F(xf)))
        if np.abs(gf - o.g(xf)).max() > t * (1 + np.abs(gf).max()):
            bad('gradient %s reported' % gf)
        if abs(xnorm - np.linalg.norm(xf)) > t * (1 + xnorm):
            bad('norm of the point %r reported' % xnorm)
        pg = pseudo(xf, gf, C, a, e) if C else gf
        if abs(gnorm - np.linalg.norm(pg)) > t * (1 + gnorm):
            bad('gradient norm %r reported, it is %r'
                % (gnorm, np.linalg.norm(pg)))
        if ls > kw.get('max_linesearch', ls):
            bad('%d evaluations in a line search limited to %d'
                % (ls, kw['max_linesearch']))
        if not step > 0:
            bad('step %r' % step)
        if st['last'] is not None and fx > st['last'] + 1e-9 * (1 + abs(fx)):
            bad('objective rises from %r to %r' % (st['last'], fx))
        st['last'], st['x'] = fx, xf
        hist.append(fx)
        return None

    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter('always')
        r = fmin_lbfgs(f, start, progress=progress, args=('tok', 5),
                       orthantwise_c=C, orthantwise_start=a,
                       orthantwise_end=b, epsilon=eps, **kw)
    warned = any('line-search' in str(w.message) or 'iterations' in
                 str(w.message) or 'rounding' in str(w.message) for w in W)
    rec.step(st['evals'])
    rec.trace()
    info = dict(objective=o.name, start=s0, options=str(lay), eps=eps)
    rec.check(st['bad'] is None, key + ':callback', st['bad'], **info)
    rec.check(np.array_equal(start, keep), key + ':start',
              'start point changed to %s' % start, **info)
    r = np.asarray(r)
    if not rec.check(r.shape == shape and r.dtype == np.float64,
                     key + ':shape', 'result %s %s' % (r.shape, r.dtype),
                     **info):
        return None
    rec.check(not np.may_share_memory(r, start), key + ':alias',
              'result shares the start point', **info)
    x = r.ravel()
    rec.check(F(x) <= F(s0) + 1e-12 * (1 + abs(F(s0))), key + ':worse',
              'result %s is worse than the start' % x, **info)
    if st['k'] and not warned:
        rec.check(np.array_equal(x, st['x']), key + ':last',
                  'result %s is not the last reported point %s'
                  % (x, st.get('x')), **info)
    pg = pseudo(x, o.g(x), C, a, e) if C else o.g(x)
    conv = np.linalg.norm(pg) <= eps * max(1, np.linalg.norm(x)) * (1 + 1e-6)
    past, delta = kw.get('past', 0), kw.get('delta', 0.)
    limit = kw.get('max_iterations', 0)
    if past and len(hist) > past:
        rate = abs(hist[-1 - past] - hist[-1])
        conv = conv or rate < delta * abs(hist[-1]) * (1 + 1e-6) + 1e-300
    if limit and any('maximum number of iterations' in str(w.message)
                     for w in W):
        rec.note('limit')
        rec.check(st['k'] == limit, key + ':limit', 'the limit of %d '
                  'iterations was reported after %d' % (limit, st['k']),
                  **info)
    elif limit and st['k'] > limit:
        rec.fail(key + ':limit', '%d iterations with a limit of %d'
                 % (st['k'], limit), **info)
    if warned:
        rec.note('warned')
        rec.check(allow_warn and st['evals'] > 1, key + ':warned',
                  'gave up: %s' % [str(w.message) for w in W][-1], **info)
    else:
        rec.check(conv, key + ':converged', 'stopped at %s with gradient '
                  'norm %g' % (x, np.linalg.norm(pg)), **info)
    rec.state(o.name, s0, C, a, b, shape, np.dtype(dtype).name, eps,
              sorted(kw.items()))
    return x


def unit_smooth(rec, oi):
    o = objectives()[oi]
    for x0 in starts(o):
        for ls in SEARCHES:
            for m in (1, 2, 3, 10):
                for eps in (1e-3, 1e-5, 1e-7):
                    # single-vector memories are allowed to stall
                    drive(rec, 'smooth', o, x0, line_search=ls, m=m, eps=eps,
                          allow_warn=eps < 1e-6 or m < 3)
    x = drive(rec, 'smooth', o, starts(o)[1])
    rec.sample(objective=o.name, result=x)


def unit_l1(rec, oi):
    o = objectives()[oi]
    for a, b in itertools.product(range(o.n), range(1, o.n + 1)):
        if a >= b:
            continue
        for b_ in {b, -1} if b == o.n else {b}:
            for C in (1e-3, .1, .7, 3., 100.):
                for x0 in starts(o):
                    for m, ls in ((10, 'default'), (3, 'wolfe')):
                        x = drive(rec, 'l1', o, x0, C, a, b_, m=m,
                                  line_search=ls, eps=1e-5)
    rec.sample(objective=o.name, result=x)


def unit_shapes(rec, oi):
    o = objectives()[oi]
    n = o.n
    shapes = {(n,), (n, 1), (1, n), (1, n, 1)}
    if n == 4:
        shapes.add((2, 2))
    for shape in sorted(shapes):
        for dt in (float, np.float32, int, np.int8, bool):
            for x0 in (np.zeros(n), np.ones(n), np.eye(n)[0]):
                for C in (0., .3):
                    drive(rec, 'shape', o, x0, C, shape=shape, dtype=dt)
                    drive(rec, 'shape', o, np.arange(n) - x0, C, shape=shape,
                          dtype=dt, order='F')
    # lists, scalars and non-contiguous start points
    ref = drive(rec, 'shape', o, np.ones(n))
    for s in ([1.] * n, tuple([1.] * n), np.ones(2 * n)[::2],
              np.ones((n, 3), order='F')[:, 1], np.ones(n)[::-1]):
        keep = np.array(s)

        def f(x, g):
            g[...] = o.g(np.array(x))
            return o.f(np.array(x))
        r = fmin_lbfgs(f, s)
        rec.step()
        rec.check(ref is None or np.array_equal(r, ref), 'shape:container',
                  'result %s for %r' % (r, s))
        rec.check(np.array_equal(np.array(s), keep), 'shape:start',
                  'start changed')
    ro = np.ones(n)
    ro.setflags(write=False)
    rec.check(np.array_equal(fmin_lbfgs(f, ro), ref), 'shape:readonly', '')
    if n == 1:
        r = fmin_lbfgs(f, 1.)
        rec.check(np.shape(r) == (1,), 'shape:scalar', '%r' % (r,))


def unit_stop(rec, oi):
    """The delta test and the iteration limit, for objectives of any sign."""
    base = objectives()[oi]
    for by in (0., -5., -1e3, 40.):
        o = shifted(base, by)
        for past, delta in ((0, .5), (1, 1e-2), (1, 1e-7), (2, 1e-3), (3, .3),
                            (5, 0.), (1, 0.)):
            for limit in (0, 1, 3):
                for C, ls in ((0., 'default'), (0., 'armijo'),
                              (0., 'strongwolfe'), (.3, 'default')):
                    for x0 in starts(o)[1:4]:
                        drive(rec, 'stop', o, x0, C, line_search=ls,
                              past=past, delta=delta, max_iterations=limit,
                              allow_warn=limit > 0 or abs(by) > 10)
    rec.sample(objective=o.name)


STEPS = [dict(ftol=1e-6), dict(ftol=.3), dict(gtol=.3), dict(wolfe=.5),
         dict(gtol=.1), dict(gtol=.01), dict(gtol=.5, ftol=.2),
         dict(wolfe=.1), dict(ftol=.45, wolfe=.6),
         dict(max_linesearch=200), dict(max_linesearch=1),
         dict(max_linesearch=2), dict(max_linesearch=4), dict(max_step=1e3), dict(min_step=1e-30),
         dict(xtol=1e-20)]


def unit_steps(rec, oi):
    """Other step and line search constants."""
    o = objectives()[oi]
    for kw in STEPS:
        for x0 in starts(o):
            for C in (0., .3):
                for ls in SEARCHES if not C else ('default',):
                    drive(rec, 'steps', o, x0, C, line_search=ls,
                          allow_warn=True, **kw)
    rec.sample(objective=o.name)


def unit_closed(rec, n, chunk, of):
    """Separable problems: the minimizer is known in closed form."""
    todo = list(itertools.product((.5, 4.), (-2., -.3, 0., .3, 2.),
                                  repeat=n))[chunk::of]
    for spec in todo:
        q = np.array(spec[0::2])
        c = np.array(spec[1::2])
        o = Objective('sep-%s' % (spec,),
                      lambda x: .5 * (q * (x - c) ** 2).sum(),
                      lambda x: q * (x - c), n)
        for C in (0., .15, 1., 50.):
            for a, b in ((0, n), (0, max(1, n - 1)), (n - 1, n)):
                if not C and (a, b) != (0, n):
                    continue
                for x0 in (np.zeros(n), np.full(n, -1.), np.full(n, 1.5)):
                    x = drive(rec, 'closed', o, x0, C, a, b, eps=1e-7)
                    lam = np.zeros(n)
                    lam[a:b] = C
                    want = np.sign(c) * np.maximum(np.abs(c) - lam / q, 0)
                    if x is None:
                        continue
                    rec.check(np.abs(x - want).max() < 1e-3, 'closed:value',
                              'minimizer %s, expected %s' % (x, want),
                              spec=spec, C=C, range=(a, b), start=x0)
                    z = np.abs(q * c) < .999 * lam
                    rec.check(not x[z].any(), 'closed:zeros',
                              '%s should be exactly zero at %s' % (x, z),
                              spec=spec, C=C, range=(a, b), start=x0)


def unit_grid(rec, n, first):
    """Every integer start point."""
    for o in objectives():
        if o.n != n:
            continue
        for x0 in itertools.product((-2., -1., 0., 1., 2.), repeat=n - 1):
            x0 = np.array((first,) + x0)
            for C in (0., .2):
                for ls in SEARCHES[1:] if not C else ('wolfe',):
                    drive(rec, 'grid', o, x0, C, line_search=ls)


def unit_quads(rec, e0, e1):
    for e2 in (.1, 1., 5.):
        for c in itertools.product((-1., 0., 2.), repeat=3):
            for k in (0, 1, 2):
                o = quadratic(3, [e0, e1, e2], c, k)
                for x0 in starts(o)[:4]:
                    for C, a, b in ((0., 0, -1), (.3, 0, -1), (.3, 1, 3),
                                    (2., 0, 2)):
                        drive(rec, 'quads', o, x0, C, a, b)


def units(tier):
    big = tier == 'thorough'
    u = []
    for i, o in enumerate(objectives()):
        u.append(('smooth-' + o.name, unit_smooth, (i,)))
        u.append(('l1-' + o.name, unit_l1, (i,)))
        u.append(('shapes-' + o.name, unit_shapes, (i,)))
        u.append(('stop-' + o.name, unit_stop, (i,)))
        u.append(('steps-' + o.name, unit_steps, (i,)))
    for n in (1, 2) + ((3,) if big else ()):
        of = {1: 1, 2: 4, 3: 32}[n]
        for k in range(of):
            u.append(('closed-%d-%d' % (n, k), unit_closed, (n, k, of)))
    for n in (1, 2, 3, 4) if big else (1, 2):
        for f in (-2., -1., 0., 1., 2.):
            u.append(('grid-%d-%g' % (n, f), unit_grid, (n, f)))
    if big:
        for e0, e1 in itertools.product((.1, 1., 5.), repeat=2):
            u.append(('quads-%g-%g' % (e0, e1), unit_quads, (e0, e1)))
    return u
