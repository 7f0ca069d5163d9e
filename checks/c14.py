"""C14: Poisson regression solves its penalized problem with either solver."""
import itertools

import numpy as np

from mc import refmodel as ref
from pyuoi.linear_model.poisson import Poisson

PROPERTY = 'C14'
TECHNIQUE = ('exhaustive enumeration of solver, penalty, intercept, weights '
             'and warm-start histories on the real estimator, each decided '
             'by the optimality conditions of the declared problem')
BOUNDS = {
    'quick': '2 solvers x 6 strengths x 4 mixing ratios x intercept x '
             'standardize x 4 data sets x 4 weightings; every warm-start '
             'history of 3 fits over 6 settings (strength, data, weights); '
             'every 0/1/2 response of 4 samples with 1-2 features (half '
             'of them scaled to fractions); counts '
             'scaled up to 5000; weights scaled by 1e-3 to 1e3, features by 1e-6 to '
             '100; residuals down to 1e-8 at tight tolerances of '
             'coordinate descent',
    'thorough': 'histories of 4 fits, every 0/1/2/5 response of 5 samples'}
ASSUMPTIONS = ['residual tolerance 1e-4 relative to the scale of the '
               'features and counts, with solver tolerance 1e-9',
               'unpenalized problems are only posed where the minimum is '
               'attained']
TOL = 1e-4


def residual(X, y, c, b, alpha, l1, fi, sw):
    n = len(y)
    sw = np.ones(n) if sw is None else sw
    r = sw * (np.exp(X.dot(c) + b) - y)
    g = X.T.dot(r) / n + alpha * (1 - l1) * c
    lam = alpha * l1
    v = np.where(c != 0, np.abs(g + lam * np.sign(c)),
                 np.maximum(np.abs(g) - lam, 0))
    out = v.max(initial=0.) / (1 + np.abs(X).max(initial=0.))
    if fi:
        out = max(out, abs(r.mean()))
    return out / (1 + np.mean(sw * y))


def decide(rec, key, m, X, y, alpha, l1, fi, sw=None, st=False, **info):
    p = X.shape[1]
    info = dict(info, alpha=alpha, l1_ratio=l1, fit_intercept=fi,
                solver=m.solver, standardize=st)
    c = np.asarray(m.coef_, float)
    b = np.asarray(m.intercept_, float)
    if not rec.check(c.shape == (p,) and b.size == 1, key + ':shape',
                     'coef %s intercept %s' % (c.shape, b.shape), **info):
        return
    b = float(np.ravel(b)[0])
    if not fi:
        rec.check(b == 0, key + ':intercept', 'intercept %r' % b, **info)
    P = m.predict_mean(X)
    want = np.exp(X.dot(c) + b)
    rec.check(np.allclose(P, want, rtol=1e-9), key + ':mean',
              'predict_mean %s expected %s' % (P[:4], want[:4]), **info)
    rec.check(np.array_equal(m.predict(X), np.floor(P)), key + ':mode',
              'predict is not the floor of the mean', **info)
    if len(set(np.asarray(y).tolist())) == 1:
        lb = (np.log(y[0]) if y[0] else -np.inf) if fi else 0.
        rec.check(not c.any() and (b == lb or abs(b - lb) < 1e-9),
                  key + ':constant', 'constant response %r: coef %s '
                  'intercept %r' % (y[0], c, b), **info)
        return
    if st:
        mu = X.mean(0) if fi else np.zeros(p)
        sd = X.std(0)
        sd[sd == 0] = 1.
        Z, c2, b2 = (X - mu) / sd, c * sd, b + c.dot(mu)
    else:
        Z, c2, b2 = X, c, b
    v = residual(Z, y, c2, b2, alpha, l1, fi, sw)
    rec.check(v <= TOL, key + ':optimal', 'optimality violated by %g at coef '
              '%s intercept %s' % (v, c, b), **info)


def data(d, scale=1):
    X, y = ref.dataset(d, 'poisson')
    if scale != 1:
        y = np.round(y * scale + 1)
    return X, y


def weights(n):
    return [None, np.ones(n), 1. + np.arange(n) % 3, (np.arange(n) % 4 > 0)
            * 1.5]


def unit_static(rec, solver, d, fi, st):
    X, y = data(d)
    n = len(y)
    for alpha in (0., .003, .03, .3, 1., 10.):
        for l1 in (1., .7, .2, 0.):
            if alpha == 0 and l1 < 1:
                continue
            for wi, sw in enumerate(weights(n)):
                m = Poisson(alpha=alpha, l1_ratio=l1, fit_intercept=fi,
                            standardize=st, solver=solver, tol=1e-9,
                            max_iter=20000)
                m.fit(X.copy(), y.copy(), sample_weight=sw)
                rec.step()
                rec.trace()
                rec.state('s', solver, d, fi, st, alpha, l1, wi, m.coef_ != 0)
                decide(rec, 'static', m, X, y, alpha, l1, fi, sw, st, data=d,
                       weights=wi)
    rec.sample(solver=solver, data=d, coef=m.coef_, intercept=m.intercept_)


def unit_history(rec, solver, fi, st, first, depth):
    n = 21
    Xa, ya = data('c')
    Xb, yb = Xa[:15] * 1.5 + .3, np.round(ya[:15] * 3 + 1)
    zero, const = np.zeros(n), np.full(n, 4.)
    Xz = Xa.copy()
    Xz[:, 1] = 0
    w = 1. + np.arange(n) % 3
    settings = [(Xa, ya, .02, 1., None), (Xa, ya, .3, .5, w),
                (Xb, yb, .05, .8, None), (Xa, zero, .1, 1., None),
                (Xa, const, .1, 1., None), (Xz, ya, .05, 1., None),
                (Xa, ya, 5., 1., None)]
    for seq in itertools.product(range(len(settings)), repeat=depth - 1):
        seq = (first,) + seq
        m = Poisson(fit_intercept=fi, standardize=st, solver=solver,
                    tol=1e-9, max_iter=20000, warm_start=True)
        hist = []
        for s in seq:
            X, y, alpha, l1, sw = settings[s]
            m.set_params(alpha=alpha, l1_ratio=l1)
            m.fit(X.copy(), y.copy(), sample_weight=sw)
            hist.append(s)
            rec.step()
            if rec.state('h', solver, fi, st, tuple(hist)):
                decide(rec, 'history', m, X, y, alpha, l1, fi, sw, st,
                       history=list(hist))
        rec.trace()
    rec.sample(history=list(seq), coef=m.coef_, intercept=m.intercept_)


def unit_small(rec, solver, fi, n, counts, first):
    """Every response over a small alphabet."""
    Xs = [np.array([[1.], [-1.], [.5], [2.], [-.25]])[:n],
          np.array([[1., 0], [0, 1], [-1, 1], [.5, -2], [1, 1]])[:n]]
    for y in itertools.product(counts, repeat=n - 1):
        # a rate need not be a whole number
        y = np.array((first,) + y, float) * (.75 if sum(y) % 2 else 1.)
        for xi, X in enumerate(Xs):
            for alpha, l1 in ((.05, 1.), (.2, .5), (1., 0.)):
                m = Poisson(alpha=alpha, l1_ratio=l1, fit_intercept=fi,
                            solver=solver, tol=1e-10, max_iter=20000)
                m.fit(X.copy(), y.copy())
                rec.step()
                rec.trace()
                rec.state('y', solver, fi, y, xi, alpha)
                decide(rec, "small", m, X, y, alpha, l1, fi, response=y)


def unit_counts(rec, solver, fi):
    """Count scales, dtypes and constant features."""
    for d in ('a', 'c', 'one'):
        for scale in (1, 10, 100, 1000, 5000):
            X, y = data(d, scale)
            for const in (False, True):
                if const and X.shape[1] == 1:
                    continue
                X1 = X.copy()
                if const:
                    X1[:, -1] = 0.
                for dt in (float, int, np.int32, np.float32):
                    for alpha, l1 in ((.1, 1.), (.5, .5)):
                        for st in (False, True):
                            m = Poisson(alpha=alpha * scale, l1_ratio=l1,
                                        fit_intercept=fi, solver=solver,
                                        standardize=st, tol=1e-9,
                                        max_iter=20000)
                            m.fit(X1.copy(), y.astype(dt))
                            rec.step()
                            rec.trace()
                            rec.state('c', solver, fi, d, scale, const, l1,
                                      st, dt.__name__)
                            decide(rec, 'counts', m, X1, y, alpha * scale,
                                   l1, fi, None, st, data=d, scale=scale,
                                   zero_column=const, dtype=dt.__name__)


def unit_tight(rec, fi, st, big):
    """Coordinate descent goes as far as its tolerance asks."""
    for d in ('a', 'b', 'c', 'one') if big else ('a', 'c', 'one'):
        X, y = data(d)
        n, p = X.shape
        for alpha, l1 in ((0., 1.), (.03, 1.), (.1, .5), (.5, 0.)):
            for wi, sw in enumerate(weights(n)):
                for tol, most in ((1e-12, 1e-8), (1e-8, 1e-5)):
                    m = Poisson(alpha=alpha, l1_ratio=l1, fit_intercept=fi,
                                standardize=st, solver='cd', tol=tol,
                                max_iter=100000)
                    m.fit(X.copy(), y.copy(), sample_weight=sw)
                    c, b = m.coef_, float(m.intercept_)
                    Z = X
                    if st:
                        mu = X.mean(0) if fi else np.zeros(p)
                        sd = X.std(0)
                        Z, c, b = (X - mu) / sd, c * sd, b + c.dot(mu)
                    v = residual(Z, y, c, b, alpha, l1, fi, sw)
                    # a small step is no proof of a small residual where
                    # features are correlated: leave a wide margin
                    rec.step()
                    rec.trace()
                    rec.state('tight', fi, st, d, alpha, l1, wi, tol)
                    rec.check(v <= most, 'tight:optimal', 'tolerance %g: '
                              'optimality violated by %g' % (tol, v), data=d,
                              alpha=alpha, l1_ratio=l1, weights=wi)


def unit_weight_scale(rec, solver, fi, st, big):
    """Weights and strength in other units state the same problem."""
    for d in ('a', 'b', 'c', 'one') if big else ('a', 'c', 'one'):
        X, y = data(d)
        n, p = X.shape
        for alpha, l1 in ((.03, 1.), (.1, .5), (.5, 0.)):
            for wi, sw in enumerate(weights(n)[1:]):
                for s in (1e-3, 1e-2, .1, 10., 1e3):
                    m = Poisson(alpha=alpha * s, l1_ratio=l1,
                                fit_intercept=fi, standardize=st,
                                solver=solver, tol=1e-11, max_iter=5000)
                    m.fit(X.copy(), y.copy(), sample_weight=sw * s)
                    c, b = m.coef_, float(m.intercept_)
                    Z = X
                    if st:
                        mu = X.mean(0) if fi else np.zeros(p)
                        sd = X.std(0)
                        Z, c, b = (X - mu) / sd, c * sd, b + c.dot(mu)
                    v = residual(Z, y, c, b, alpha, l1, fi, sw)
                    rec.step()
                    rec.trace()
                    rec.state('weight-scale', solver, fi, st, d, alpha, wi, s)
                    rec.check(v <= 1e-3, 'weight-scale:optimal',
                              '%s, weights x %g: optimality violated by %g'
                              % (solver, s, v), data=d, alpha=alpha,
                              l1_ratio=l1, weights=wi)


def unit_feature_scale(rec, fi, st, big):
    """Features in other units (all, or one of them) state the same problem
    for coordinate descent."""
    for d in ('a', 'b', 'c', 'one') if big else ('a', 'c', 'one'):
        X, y = data(d)
        n, p = X.shape
        for alpha in (0., .03):
            for wi, sw in enumerate(weights(n)):
                for s in (1e-6, 1e-4, 1e-3, .1, 10., 100.):
                    for only in [None] + ([0, p - 1] if not alpha else []):
                        f = np.full(p, s)
                        if only is not None:
                            f = np.where(np.arange(p) == only, s, 1.)
                        a = alpha * (1 if st else s)
                        m = Poisson(alpha=a, l1_ratio=1., fit_intercept=fi,
                                    standardize=st, solver='cd',
                                    tol=1e-10 * (max(1., 1 / s) if only is
                                                 None and not st else 1.),
                                    max_iter=20000)
                        m.fit(X * f, y.copy(), sample_weight=sw)
                        c, b, Z = m.coef_ * f, float(m.intercept_), X
                        if st:
                            mu = X.mean(0) if fi else np.zeros(p)
                            sd = X.std(0)
                            Z, c, b = (X - mu) / sd, c * sd, b + c.dot(mu)
                        v = residual(Z, y, c, b, alpha, 1., fi, sw)
                        rec.step()
                        rec.trace()
                        rec.state('feature-scale', fi, st, d, alpha, wi, s,
                                  only)
                        rec.check(v <= 1e-3, 'feature-scale:optimal',
                                  'features x %s: optimality violated by %g'
                                  % (f, v), data=d, alpha=alpha, weights=wi)


def units(tier):
    big = tier == 'thorough'
    u = []
    for solver in ('lbfgs', 'cd'):
        for fi in (True, False):
            t = '%s-%d' % (solver, fi)
            u.append(('counts-' + t, unit_counts, (solver, fi)))
            cnt = (0, 1, 2, 5) if big else (0, 1, 2)
            for f in cnt:
                u.append(('small-%s-%d' % (t, f), unit_small,
                          (solver, fi, 5 if big else 4, cnt, f)))
            for st in (False, True):
                if solver == 'cd':
                    u.append(('tight-%d-%d' % (fi, st), unit_tight,
                              (fi, st, big)))
                    u.append(('feature-scale-%d-%d' % (fi, st),
                              unit_feature_scale, (fi, st, big)))
                u.append(('weight-scale-%s-%d' % (t, st), unit_weight_scale,
                          (solver, fi, st, big)))
                for d in ('a', 'b', 'c', 'one'):
                    u.append(('static-%s-%d-%s' % (t, st, d), unit_static,
                              (solver, d, fi, st)))
                for first in range(7):
                    u.append(('history-%s-%d-%d' % (t, st, first),
                              unit_history, (solver, fi, st, first,
                                             4 if big else 3)))
    return u
