"""C07: the intercept is optimal for the final coefficients, or zero."""
import itertools

import numpy as np
from sklearn.linear_model import LinearRegression

from mc.stubs import QUIET, StubLinear
from mc import refmodel as ref
from pyuoi.linear_model import UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic, \
    UoI_Poisson
from pyuoi.linear_model.poisson import Poisson
from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression

PROPERTY = 'C07'
TECHNIQUE = ('exhaustive enumeration of responses x final coefficients '
             'through the real fit, with a score-equation oracle on the '
             'published model; real-estimator lattice')
BOUNDS = {
    'quick': 'all responses over 2-3 levels for 5 samples x coefficients over '
             '{-2,0,1.5} for 2 features x 2 designs x standardize x '
             'intercept; coefficients up to 1000 and features around 700, '
             'whose linear predictors leave the range of exp; constant '
             'responses of every family, of one and of 6 samples; lattice '
             'of real '
             'estimators',
    'thorough': 'all responses for 6 samples, 3 designs, 4 coefficient levels'}
ASSUMPTIONS = ['optimal means a vanishing intercept score, up to 2e-3 of the '
               'response scale']

DESIGNS = {
    'plain': np.array([[0.5, -1.], [1.5, 2.], [-.5, .25], [2., -2.],
                       [-1., 1.], [.25, 0.5]]),
    'shifted': np.array([[10.5, -1.], [11.5, 2.], [9.5, .25], [12., -2.],
                         [9., 1.], [10.25, 0.5]]),
    'wide': np.array([[5., -10.], [15., 20.], [-5., 2.5], [20., -20.],
                      [-10., 10.], [2.5, 5.]]),
    # linear predictors beyond the range of the exponential function
    'high': np.array([[700.5, -1.], [701.5, 2.], [699.5, .25], [702., -2.],
                      [699., 1.], [700.25, 0.5]])}


class Linear(StubLinear, LinearRegression):
    pass


class Const(object):
    """Inner model with fixed coefficients."""
    def __init__(self, coef, K, mean):
        self.c, self.K, self.mean = np.array(coef, float), K, mean
        self.intercept_ = np.zeros(1)

    def set_params(self, **k):
        return self

    def fit(self, X, y, *a, **k):
        c = self.c
        if X.shape[1] != self.c.shape[1]:
            c = c[:, c.any(0)]
        self.coef_ = c.copy()
        return self

    def predict(self, X):
        return np.full(X.shape[0], self.mean)

    predict_mean = predict

    def predict_proba(self, X):
        k = max(self.K, 2)
        return np.full((X.shape[0], k), 1. / k)


def build(family, coef, st, fi, K=1, multi='auto'):
    kw = dict(n_boots_sel=1, n_boots_est=1, stability_selection=1,
              standardize=st, fit_intercept=fi, random_state=1,
              selection_frac=.6, estimation_frac=.6, logger=QUIET)
    coef = np.atleast_2d(coef)
    if family == 'linear':
        m = Linear(Const(coef, 1, 0.), Const(coef, 1, 0.), 1, **kw)
        # keep predictions one-dimensional and non-degenerate
        m._estimation_lm.predict = lambda X: np.arange(float(X.shape[0]))
        return m
    cls = UoI_L1Logistic if family == 'logistic' else UoI_Poisson
    if family == 'logistic':
        kw['multi_class'] = multi
    key = 'C' if family == 'logistic' else 'alpha'

    class M(cls):
        def get_reg_params(self, X, y):
            return [{key: 0}]
    m = M(estimation_score='log', **kw)
    m._selection_lm, m._estimation_lm = Const(coef, K, 1), Const(coef, K, 1)
    return m


def score_gap(family, m, X, y, K):
    """Largest intercept score of the published model on the full data."""
    p = X.shape[1]
    c = np.asarray(m.coef_, float).reshape(-1, p)
    b = np.ravel(np.asarray(m.intercept_, float))
    eta = X.dot(c.T) + b
    if family == 'linear':
        return abs(np.mean(y - eta[:, 0])) / (1 + np.abs(y).max())
    if family == 'poisson':
        mu = np.exp(eta[:, 0])
        return abs(mu.mean() - y.mean()) / (1 + y.mean())
    code = np.unique(y, return_inverse=True)[1]
    if eta.shape[1] == 1:
        q = np.where(eta[:, 0] >= 0, 1 / (1 + np.exp(-np.abs(eta[:, 0]))),
                     np.exp(-np.abs(eta[:, 0])) /
                     (1 + np.exp(-np.abs(eta[:, 0]))))
        return abs(q.mean() - code.mean())
    e = np.exp(eta - eta.max(1, keepdims=True))
    q = (e / e.sum(1, keepdims=True)).mean(0)
    return np.abs(q - np.array([np.mean(code == k)
                                for k in range(eta.shape[1])])).max()


def shape_ok(rec, family, m, p, K, data):
    b = np.asarray(m.intercept_)
    rec.check(b.size == (K if family == 'logistic' else 1), 'shape',
              'intercept_ %r for %d outputs' % (m.intercept_, K), **data)
    rec.check(np.isfinite(np.asarray(b, float)).all(), 'finite',
              'intercept_ is %r' % (m.intercept_,), **data)


def offset_free(rec, family, m, p, data):
    """Without an intercept predictions at the origin carry no offset."""
    z = np.zeros((2, p))
    if family == 'linear':
        ok = np.all(np.asarray(m.predict(z)) == 0)
    elif family == 'poisson':
        ok = np.all(np.asarray(m.predict_mean(z)) == 1)
    else:
        q = np.asarray(m.predict_proba(z))
        ok = np.allclose(q, 1. / q.shape[1], atol=1e-12)
    rec.check(ok, family + ':offset', 'predictions at the origin have an '
              'offset', **data)


def unit_all(rec, family, design, st, fi, levels, coefs, n, multi='auto'):
    X = DESIGNS[design][:n]
    p = X.shape[1]
    for yv in itertools.product(range(len(levels)), repeat=n):
        if len(set(yv)) == 1:
            continue
        y = np.array([levels[v] for v in yv])
        K = 1
        if family == 'logistic':
            k = len(set(yv))
            K = k if k > 2 or multi == 'multinomial' else 1
            if k < len(levels):
                continue
        for cv in coefs:
            if family == 'logistic' and K > 1:
                coef = np.array([cv, cv[::-1], [-cv[0], 1.]])[:K]
            else:
                coef = np.array([cv])
            m = build(family, coef, st, fi, K, multi)
            m.fit(X.copy(), y.copy())
            rec.step()
            rec.trace()
            data = dict(family=family, y=y, coef=m.coef_,
                        intercept=m.intercept_, standardize=st)
            rec.state(family, design, st, fi, sorted(yv), cv)
            shape_ok(rec, family, m, p, K, data)
            sx = X.std(0) if st else 1.
            sy = y.std() if st and family == 'linear' else 1.
            rec.check(np.allclose(np.asarray(m.coef_).reshape(-1, p),
                                  coef / sx * sy, rtol=1e-9, atol=1e-12),
                      family + ':coef', 'coefficients %s, chosen %s'
                      % (m.coef_, coef / sx * sy), **data)
            if fi:
                g = score_gap(family, m, X, y, K)
                rec.check(g < 2e-3, family + ':optimal',
                          'intercept score %g at the published model' % g,
                          **data)
            else:
                rec.check(np.all(np.asarray(m.intercept_) == 0),
                          family + ':zero', 'intercept_ %r although none is '
                          'fitted' % (m.intercept_,), **data)
                offset_free(rec, family, m, p, data)
    rec.sample(family=family, y=y, coef=m.coef_, intercept=m.intercept_)


def unit_constant(rec, cls, kw, values):
    """Constant responses."""
    designs = sorted(DESIGNS.items()) + [('single', DESIGNS['plain'][:1])]
    for (dn, X), v in itertools.product(designs, values):
        n, p = X.shape
        for st, fi, two in itertools.product((True, False), (True, False),
                                             (False, True)):
            y = np.array([v] * n)
            if two and cls not in (UoI_Lasso, UoI_ElasticNet):
                continue
            if two:
                y = y[:, None]
            m = ref.make(cls, dict(kw, standardize=st, fit_intercept=fi),
                         random_state=3)
            m.fit(X.copy(), y.copy())
            rec.step()
            rec.trace()
            data = dict(cls=cls.__name__, value=v, samples=n, standardize=st,
                        fit_intercept=fi, coef=m.coef_,
                        intercept=m.intercept_)
            rec.state(cls.__name__, v, n, st, fi)
            rec.check(np.all(np.asarray(m.coef_) == 0), 'constant:coef',
                      'coefficients %s' % (m.coef_,), **data)
            if not fi:
                rec.check(np.all(np.asarray(m.intercept_) == 0),
                          'constant:zero', 'intercept_ %r' % (m.intercept_,),
                          **data)
                continue
            if cls is UoI_L1Logistic:
                got = np.asarray(m.predict(X))
                rec.check((got == y).all(), 'constant:class',
                          'predicted %s' % (got,), **data)
            elif cls is UoI_Poisson:
                got = np.asarray(m.predict_mean(X))
                rec.check(np.allclose(got, v, rtol=1e-9), 'constant:value',
                          'predicted %s' % (got,), **data)
            else:
                got = np.asarray(m.predict(X))
                rec.check(np.allclose(np.ravel(got), v, rtol=1e-9,
                                      atol=1e-9), 'constant:value',
                          'predicted %s' % (got,), **data)
    rec.sample(cls=cls.__name__, value=v, intercept=m.intercept_)


def unit_constant_poisson(rec, solver):
    for X in list(DESIGNS.values()) + [DESIGNS['plain'][:1]]:
        for v in (0., 1., 7., .5):
            for st, fi, alpha in itertools.product((True, False),
                                                   (True, False),
                                                   (0., .5)):
                m = Poisson(alpha=alpha, fit_intercept=fi, standardize=st,
                            solver=solver)
                m.fit(X.copy(), np.full(len(X), v))
                rec.step()
                rec.trace()
                rec.state('poisson', solver, v, st, fi, alpha)
                data = dict(value=v, standardize=st, fit_intercept=fi,
                            coef=m.coef_, intercept=m.intercept_)
                rec.check(np.all(m.coef_ == 0), 'poisson-constant:coef', '',
                          **data)
                want = v if fi else 1.
                rec.check(np.allclose(m.predict_mean(X), want),
                          'poisson-constant:value', 'mean %s for %s'
                          % (m.predict_mean(X), v), **data)


def unit_real(rec, cls, kw, d):
    fam = {UoI_Lasso: 'linear', UoI_ElasticNet: 'linear',
           UoI_Poisson: 'poisson', UoI_L1Logistic: 'logistic'}[cls]
    X, y = ref.dataset(d, ref.kind_of(cls, kw))
    for off in (0., 7.):
        m = ref.make(cls, kw, random_state=2)
        m.fit(X + off, y.copy())
        p = X.shape[1]
        K = np.asarray(m.coef_).size // p
        data = dict(cls=cls.__name__, kw=kw, coef=m.coef_,
                    intercept=m.intercept_)
        rec.step()
        rec.trace()
        rec.state(cls.__name__, kw, d, off)
        shape_ok(rec, fam, m, p, K, data)
        if kw.get('fit_intercept', True):
            g = score_gap(fam, m, X + off, y, K)
            rec.check(g < 2e-3, 'real:%s:optimal' % fam,
                      'intercept score %g' % g, **data)
        else:
            rec.check(np.all(np.asarray(m.intercept_) == 0),
                      'real:%s:zero' % fam, 'intercept_ %r'
                      % (m.intercept_,), **data)
            offset_free(rec, fam, m, p, data)
    rec.sample(cls=cls.__name__, data=d, intercept=m.intercept_)


def unit_inner(rec):
    """The stand-alone models without intercept use no offset."""
    for d in ('a', 'c', 'one'):
        X, y = ref.dataset(d, 'poisson')
        for solver, st, alpha in itertools.product(('lbfgs', 'cd'),
                                                   (True, False), (0., .1)):
            m = Poisson(alpha=alpha, fit_intercept=False, standardize=st,
                        solver=solver).fit(X, y)
            rec.step()
            rec.trace()
            rec.check(np.all(np.asarray(m.intercept_) == 0), 'inner:zero',
                      'Poisson intercept_ %r' % (m.intercept_,))
            offset_free(rec, 'poisson', m, X.shape[1], {})
        for kind in ('binary', 'multi'):
            if kind == 'multi' and d == 'one':
                continue
            X, y = ref.dataset(d, kind)
            for pen, st in itertools.product(('l1', 'l2'), (True, False)):
                m = MaskedCoefLogisticRegression(
                    penalty=pen, fit_intercept=False, standardize=st
                ).fit(X, y)
                rec.step()
                rec.trace()
                rec.check(np.all(np.asarray(m.intercept_) == 0),
                          'inner:zero', 'logistic intercept_ %r'
                          % (m.intercept_,))
                offset_free(rec, 'logistic', m, X.shape[1], {})
    rec.state('inner')


def units(tier):
    big = tier == 'thorough'
    n = 6 if big else 5
    lv = (-2., 0., 1.5) + ((.3,) if big else ())
    coefs = list(itertools.product(lv, repeat=2))
    small = [(0., 0.), (1.5, 0.), (-2., 1.5)]
    u = []
    for d in ('plain', 'shifted') + (('wide',) if big else ()):
        for st, fi in itertools.product((True, False), repeat=2):
            t = '%s-%d%d' % (d, st, fi)
            few = coefs if fi else coefs[:3]
            u.append(('linear-' + t, unit_all,
                      ('linear', d, st, fi, (0., 1., 5.),
                       few if big else small, n)))
            u.append(('poisson-' + t, unit_all,
                      ('poisson', d, st, fi, (0., 1., 4.),
                       few if big else small, n)))
            for enc in ((0, 1), (-1, 1), ('p', 'q')):
                u.append(('bin-%s-%s' % (t, enc[0]), unit_all,
                          ('logistic', d, st, fi, enc, few, n)))
            if d == 'plain':
                far = [(900., -400.), (-900., 30.), (25., 0.), (0., -1e3)]
                u.append(('poisson-far-' + t, unit_all,
                          ('poisson', d, st, fi, (0., 1., 4.), far, n)))
                u.append(('bin-far-' + t, unit_all,
                          ('logistic', d, st, fi, (0, 1), far[:2], n)))
                u.append(('multi-far-' + t, unit_all,
                          ('logistic', d, st, fi, (3, 1, 2), far[:1], n)))
            elif d == 'shifted':
                u.append(('poisson-high-%d%d' % (st, fi), unit_all,
                          ('poisson', 'high', st, fi, (0., 1., 4.),
                           small, n)))
                u.append(('bin-high-%d%d' % (st, fi), unit_all,
                          ('logistic', 'high', st, fi, (0, 1), small, n)))
                u.append(('linear-high-%d%d' % (st, fi), unit_all,
                          ('linear', 'high', st, fi, (0., 1., 5.),
                           small, n)))
            u.append(('bin2-' + t, unit_all,
                      ('logistic', d, st, fi, (0, 1), small, n,
                       'multinomial')))
            u.append(('multi-' + t, unit_all,
                      ('logistic', d, st, fi, (3, 1, 2),
                       small if fi else small[:1], n)))
    u.append(('constant-lasso', unit_constant,
              (UoI_Lasso, {}, (0., 1., -2., 2.5, 1e6, 7))))
    u.append(('constant-enet', unit_constant,
              (UoI_ElasticNet, {}, (0., 1., -2., 2.5))))
    u.append(('constant-pois', unit_constant,
              (UoI_Poisson, {}, (0., 1., 3., 12))))
    u.append(('constant-log', unit_constant,
              (UoI_L1Logistic, {}, (0, 1, -1, 5, 'a'))))
    for s in ('lbfgs', 'cd'):
        u.append(('constant-poisson-' + s, unit_constant_poisson, (s,)))
    u.append(('inner', unit_inner, ()))
    for name, cls, kw in ref.lattice(big):
        for d in ref.datasets(cls, big):
            if d == 'one' and kw.get('_multi'):
                continue
            u.append(('real-%s-%s' % (name, d), unit_real, (cls, kw, d)))
    return u
