"""C06: standardization never changes the meaning of the fitted model."""
import itertools

import numpy as np
from scipy import sparse

from mc.stubs import QUIET
from mc import refmodel as ref
from pyuoi.linear_model import UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic, \
    UoI_Poisson
from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
from pyuoi.linear_model.poisson import Poisson

PROPERTY = 'C06'
TECHNIQUE = ('exhaustive enumeration of unit changes (scale x shift per '
             'feature and response) with a metamorphic and a definitional '
             'oracle on the real estimators')
BOUNDS = {
    'quick': 'all unit changes over scales {1,4,-1/2} (x shifts {0,3} when '
             'an intercept is fitted) of 2-3 features, response changes '
             '{1,8,-2} x {0,5}, every family x intercept x shared support; '
             'stand-alone Poisson (2 solvers) and masked logistic (2 '
             'penalties); every feature in turn constant at 3 values; '
             'sparse data',
    'thorough': 'scales {1,4,-1/2,1024}, shifts {0,3,-40}, 3 data sets'}
ASSUMPTIONS = ['power-of-two factors leave the standardized data bit-equal, '
               'shifts change it by rounding only']
GRID = dict(n_boots_sel=2, n_boots_est=3, stability_selection=[1, 2])


def families(big):
    out = []
    for fi in (True, False):
        out.append(('lasso-%d' % fi, UoI_Lasso,
                    dict(GRID, n_lambdas=6, tol=1e-8, max_iter=20000,
                         fit_intercept=fi), False))
        out.append(('enet-%d' % fi, UoI_ElasticNet,
                    dict(GRID, n_lambdas=3, alphas=np.array([.5, .9]),
                         tol=1e-8, max_iter=20000, fit_intercept=fi), False))
        out.append(('bic-%d' % fi, UoI_Lasso,
                    dict(GRID, n_lambdas=5, tol=1e-8, max_iter=20000,
                         fit_intercept=fi, estimation_score='BIC'), False))
        out.append(('bin-%d' % fi, UoI_L1Logistic,
                    dict(GRID, n_C=4, tol=1e-6, fit_intercept=fi,
                         estimation_score='log'), False))
        for sh in (True, False):
            out.append(('multi-%d%d' % (fi, sh), UoI_L1Logistic,
                        dict(GRID, n_C=3, tol=1e-5, fit_intercept=fi,
                             estimation_score='log', shared_support=sh,
                             _multi=True), True))
        out.append(('pois-%d' % fi, UoI_Poisson,
                    dict(GRID, n_lambdas=5, tol=1e-7, fit_intercept=fi,
                         estimation_score='log'), True))
    return out


def fit(cls, kw, X, y, st=True, **extra):
    m = ref.make(cls, kw, standardize=st, random_state=7, **extra)
    m.fit(X.copy(), y.copy())
    return m


def coefs(m, p):
    return np.asarray(m.coef_, float).reshape(-1, p), \
        np.ravel(np.asarray(m.intercept_, float))


def link(m, X):
    if isinstance(m, UoI_L1Logistic):
        return m.predict_proba(X)
    if isinstance(m, (UoI_Poisson, Poisson)):
        return m.predict_mean(X)
    if isinstance(m, MaskedCoefLogisticRegression):
        return m.predict_proba(X)
    return m.predict(X)


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(
        (np.abs(a - b) <= tol * (1 + np.abs(a).max(initial=0) +
                                 np.abs(b))).all())


def flip_key(kw, a, key):
    """Multinomial fits without intercept start the last coefficient away
    from zero, so sign flips move the softmax gauge (known finding)."""
    return 'flip-last-feature' if (
        kw.get('_multi') and not kw['fit_intercept']
        and (np.asarray(a) < 0).any()) else key


def tied_choice(m0, m1):
    """Different supports chosen although their scores are equal."""
    if not hasattr(m0, 'scores_') or \
            not np.array_equal(m0.supports_, m1.supports_):
        return False
    a, b = np.asarray(m0.rp_max_idx_), np.asarray(m1.rp_max_idx_)
    s = np.asarray(m0.scores_)
    r = np.arange(len(a))
    d = a != b
    gap = np.abs(s[r, a] - s[r, b])[d]
    return bool(d.any() and (gap <= 1e-5 * (1 + np.abs(s[r, a][d]))).all())


def compare(rec, key, m0, m1, X0, X1, p, a, b, sy=1., ty=0., intercept=True,
            tol=1e-9, **data):
    """m1 was fitted to X1 = X0 * a + b (and y * sy + ty)."""
    if tied_choice(m0, m1):
        # two supports with equal scores (a class-wise support and the same
        # one up to the softmax gauge): either may be chosen
        rec.note('tied choices')
        return
    c0, i0 = coefs(m0, p)
    c1, i1 = coefs(m1, p)
    want = c0 / a * sy
    ok = rec.check(close(c1 * a, want * a, tol), key + ':coef',
                   'coefficients %s, expected %s' % (c1, want), **data)
    if intercept:
        wi = i0 * sy + ty - (want * b).sum(1)
    else:
        wi = i0
    ok &= rec.check(close(i1, wi, tol), key + ':intercept',
                    'intercept %s, expected %s' % (i1, wi), **data)
    if ok:
        q0 = np.asarray(link(m0, X0))
        q1 = np.asarray(link(m1, X1))
        rec.check(close(q1, q0 * sy + ty, max(tol, 1e-9)),
                  key + ':prediction', 'predictions %s, expected %s'
                  % (q1[:3], (q0 * sy + ty)[:3]), **data)
    if hasattr(m0, 'supports_'):
        s0 = sorted(map(tuple, np.asarray(m0.supports_).astype(int)))
        s1 = sorted(map(tuple, np.asarray(m1.supports_).astype(int)))
        rec.check(s0 == s1, key + ':supports', 'supports %s, expected %s'
                  % (s1, s0), **data)


def changes(p, intercept, big, few):
    scales = (1., 4., -.5) + ((1024.,) if big else ())
    shifts = (0., 3.) + ((-40.,) if big else ()) if intercept else (0.,)
    alpha = list(itertools.product(scales, shifts))
    if few:
        # at most two features changed, all pairs of changes
        out = []
        for j, k in itertools.combinations(range(p), 2) if p > 1 else \
                [(0, 0)]:
            for x in alpha:
                for y in (alpha if k != j else [x]):
                    if not big and x != alpha[0] and y != alpha[0] \
                            and (x[0] == y[0] or x[1] == y[1]):
                        continue
                    v = [alpha[0]] * p
                    v[j], v[k] = x, y
                    out.append(tuple(v))
        return sorted(set(out))
    return list(itertools.product(alpha, repeat=p))


def unit_units(rec, cls, kw, d, few, big, chunk, of, todo=None):
    X, y = ref.dataset(d, ref.kind_of(cls, kw))
    p = X.shape[1]
    fi = kw['fit_intercept']
    m0 = fit(cls, kw, X, y)
    todo = todo or changes(p, fi, big, few)[chunk::of]
    for ch in todo:
        a = np.array([c[0] for c in ch])
        b = np.array([c[1] for c in ch])
        X1 = X * a + b
        m1 = fit(cls, kw, X1, y)
        rec.step()
        rec.trace()
        rec.state(cls.__name__, fi, d, ch, m1.supports_)
        key = flip_key(kw, a, 'x-units')
        compare(rec, key, m0, m1, X, X1, p, a, b, intercept=fi,
                tol=1e-9 if not b.any() else 2e-4, change=ch)
    if todo:
        rec.sample(cls=cls.__name__, change=ch, coef=m1.coef_,
                   intercept=m1.intercept_)


def unit_constant(rec, cls, kw, d, big):
    """A feature that never varies says nothing, whatever its value is."""
    X, y = ref.dataset(d, ref.kind_of(cls, kw))
    p = X.shape[1]
    for j in range(p):
        m0 = None
        for v in (0., 1., -3.) + ((1e3, 2.5e-3) if big else ()):
            X1 = X.copy()
            X1[:, j] = v
            m1 = fit(cls, kw, X1, y)
            c1, i1 = coefs(m1, p)
            rec.step()
            rec.trace()
            rec.state('constant', cls.__name__, d, j, v, m1.supports_)
            rec.check(np.isfinite(c1).all() and np.isfinite(i1).all() and
                      not c1[:, j].any(), 'constant:coef',
                      '%s: feature %d is always %s; coefficients %s'
                      % (cls.__name__, j, v, c1), data=d)
            if m0 is None:
                m0, X0 = m1, X1
                continue
            compare(rec, 'constant', m0, m1, X0, X1, p, np.ones(p),
                    np.zeros(p), tol=2e-4, constant=(j, v), data=d)


def unit_response(rec, cls, kw, d):
    X, y = ref.dataset(d, 'linear')
    p = X.shape[1]
    fi = kw['fit_intercept']
    m0 = fit(cls, kw, X, y)
    for sy, ty in itertools.product((1., 8., -2., 1 / 64.),
                                    (0., 5., -100.) if fi else (0.,)):
        m1 = fit(cls, kw, X, y * sy + ty)
        rec.step()
        rec.trace()
        rec.state(cls.__name__, fi, d, sy, ty, m1.supports_)
        c0, i0 = coefs(m0, p)
        compare(rec, 'y-units', m0, m1, X, X, p, np.ones(p), np.zeros(p),
                sy=sy, ty=ty, intercept=fi, tol=1e-9 if not ty else 1e-5,
                change=(sy, ty))


def unit_definition(rec, cls, kw, d):
    """standardize=True is fitting explicitly standardized data."""
    X, y = ref.dataset(d, ref.kind_of(cls, kw))
    n, p = X.shape
    fi = kw['fit_intercept']
    for const in (False, True):
        if const:
            if p == 1:
                continue
            X = X.copy()
            X[:, p - 1] = 2.5
        m1 = fit(cls, kw, X, y)
        sx = X.std(0)
        sx[sx < 1e-12] = 1.
        mx = X.mean(0) if fi else np.zeros(p)
        Z = (X - mx) / sx
        sy, my, yy = 1., 0., y
        if cls in (UoI_Lasso, UoI_ElasticNet):
            sy, my = y.std(), (y.mean() if fi else 0.)
            yy = (y - my) / sy
        m0 = fit(cls, kw, Z, yy, st=False)
        rec.step()
        rec.trace()
        rec.state(cls.__name__, fi, d, const, m1.supports_)
        compare(rec, 'definition', m0, m1, Z, X, p, sx, mx, sy=sy, ty=my,
                intercept=fi, tol=2e-4, constant_column=const)


def unit_raw(rec, cls, kw, d):
    """standardize=False hands the data as given to the inner models."""
    X, y = ref.dataset(d, ref.kind_of(cls, kw))
    m, X, y, spy = ref.fit_spied(cls, dict(kw, standardize=False), d)
    p = X.shape[1]
    for phase in ('sel', 'est'):
        for f in spy[phase].fits:
            A = f['X']
            if A.shape[1] == p:
                rows = ref.match_rows(A, X)
            else:
                # rows of X on some support
                rows = next((r for s in np.asarray(m.supports_)
                             if s.size == p and s.sum() == A.shape[1]
                             for r in [ref.match_rows(A, X, s)]
                             if r is not None), None)
            rec.step()
            rec.check(rows is not None, 'raw:' + phase,
                      'inner model saw rows that are not in the data')
            if 'standardize' in f['params']:
                rec.check(not f['params']['standardize'], 'raw:inner',
                          'inner model standardizes although switched off')
    rec.trace()
    rec.state(cls.__name__, d, len(spy['est'].fits))


def unit_poisson(rec, solver, fi, alpha, l1, warm, big):
    for d in ('a', 'c', 'one'):
        X, y = ref.dataset(d, 'poisson')
        p = X.shape[1]

        def make(X, y):
            m = Poisson(alpha=alpha, l1_ratio=l1, fit_intercept=fi,
                        standardize=True, solver=solver, tol=1e-9,
                        max_iter=5000, warm_start=warm)
            m.fit(X.copy(), y.copy())
            if warm:
                m.fit(X.copy(), y.copy())
            return m
        m0 = make(X, y)
        # definitional, also for a feature that never varies
        for j in [None] + list(range(p if p > 1 else 0)):
            Xk = X.copy()
            if j is not None:
                Xk[:, j] = 1.5
            sx = Xk.std(0)
            sx[sx < 1e-12] = 1.
            mx = Xk.mean(0) if fi else np.zeros(p)
            Z = (Xk - mx) / sx
            mz = Poisson(alpha=alpha, l1_ratio=l1, fit_intercept=fi,
                         solver=solver, tol=1e-9,
                         max_iter=5000).fit(Z, y.copy())
            rec.step()
            rec.state('poisson-definition', solver, fi, alpha, d, j)
            compare(rec, 'poisson:definition', mz, make(Xk, y), Z, Xk, p, sx,
                    mx, intercept=fi, tol=1e-5, solver=solver, data=d,
                    constant=j)
        for ch in changes(p, fi, big, True):
            a = np.array([c[0] for c in ch])
            b = np.array([c[1] for c in ch])
            X1 = X * a + b
            m1 = make(X1, y)
            rec.step()
            rec.trace()
            rec.state('poisson', solver, fi, alpha, d, ch)
            compare(rec, 'poisson:units', m0, m1, X, X1, p, a, b,
                    intercept=fi, tol=1e-5, solver=solver, change=ch)
    rec.sample(solver=solver, alpha=alpha, coef=m0.coef_)


def unit_masked(rec, penalty, fi, multi, C, big):
    for d in ('a', 'c', 'one') if not multi else ('a', 'c'):
        X, y = ref.dataset(d, 'multi' if multi else 'binary')
        p = X.shape[1]
        K = 3 if multi else 1
        masks = [None, np.ones((K, p)), (np.arange(K * p) % 3 != 1)
                 .reshape(K, p).astype(float)]
        if p == 1:
            masks = masks[:2]
        for mask in masks:
            mk = mask if mask is None or multi else mask.ravel()

            def make(X, st=True):
                return MaskedCoefLogisticRegression(
                    penalty=penalty, C=C, fit_intercept=fi, standardize=st,
                    tol=1e-7).fit(X.copy(), y.copy(), coef_mask=None
                                  if mk is None else mk.copy())
            m0 = make(X)
            sx = X.std(0)
            mx = X.mean(0) if fi else np.zeros(p)
            Z = (X - mx) / sx
            compare(rec, 'masked:definition', make(Z, False), m0, Z, X, p,
                    sx, mx, intercept=fi, tol=1e-5, data=d, C=C)
            todo = changes(p, fi, big, True)
            for ch in todo[::1 if big or not multi else 3]:
                a = np.array([c[0] for c in ch])
                b = np.array([c[1] for c in ch])
                X1 = X * a + b
                m1 = make(X1)
                rec.step()
                rec.trace()
                rec.state('masked', penalty, fi, multi, C, d, ch)
                if multi and C == np.inf:
                    # only differences between classes are identified
                    rec.check(close(link(m1, X1), link(m0, X), 1e-3),
                              'masked:units:prediction', '', change=ch, C=C)
                    continue
                compare(rec, 'masked:units', m0, m1, X, X1, p, a, b,
                        intercept=fi, tol=1e-3, change=ch, C=C)
    rec.sample(penalty=penalty, C=C, coef=m0.coef_)


def unit_sparse(rec, cls, kw, d):
    """Sparse data are scaled but never centred."""
    X, y = ref.dataset(d, ref.kind_of(cls, kw))
    X = X * (np.abs(X) > .5)
    p = X.shape[1]
    m0 = fit(cls, kw, X, y)
    for a in itertools.product((1., 4., -.5), repeat=p):
        a = np.array(a)
        for fmt in (sparse.csr_matrix, sparse.csc_matrix):
            X1 = X * a
            m1 = ref.make(cls, kw, standardize=True, random_state=7)
            m1.fit(fmt(X1), y.copy())
            rec.step()
            rec.trace()
            rec.state('sparse', cls.__name__, d, a)
            compare(rec, flip_key(kw, a, 'sparse'), m0, m1, X, X1, p, a, np.zeros(p),
                    intercept=False, tol=1e-3, change=a)


def units(tier):
    big = tier == 'thorough'
    u = []
    for name, cls, kw, few in families(big):
        if name == 'multi-00':
            u.append(('flip-last', unit_units,
                      (cls, kw, 'a', True, big, 0, 1,
                       [((1., 0.),) * 3 + ((-.5, 0.),)])))
        for d in ('c', 'a') if not big else ('c', 'one', 'a'):
            if d == 'a' and not few and not big:
                few_ = True
            else:
                few_ = few or d == 'a'
            if d == 'a' and few and not big:
                continue
            if d == 'one' and name.startswith('multi'):
                continue
            of = 4 if not big else 8
            for k in range(of):
                u.append(('units-%s-%s-%d' % (name, d, k), unit_units,
                          (cls, kw, d, few_, big, k, of)))
        for d in ('a', 'b', 'c', 'one'):
            if d == 'one' and kw.get('_multi'):
                continue
            if cls is not UoI_Poisson:
                u.append(('definition-%s-%s' % (name, d), unit_definition,
                          (cls, kw, d)))
            u.append(('raw-%s-%s' % (name, d), unit_raw, (cls, kw, d)))
            if kw['fit_intercept'] and d != 'one' and (big or d == 'c'):
                u.append(('constant-%s-%s' % (name, d), unit_constant,
                          (cls, kw, d, big)))
            if cls in (UoI_Lasso, UoI_ElasticNet):
                u.append(('response-%s-%s' % (name, d), unit_response,
                          (cls, kw, d)))
        if not kw['fit_intercept'] and cls in (UoI_Lasso, UoI_L1Logistic) \
                and (big or not kw.get('_multi')):
            u.append(('sparse-%s' % name, unit_sparse, (cls, kw, 'c')))
    for solver in ('lbfgs', 'cd'):
        for fi in (True, False):
            for alpha, l1 in ((0., 1.), (.05, 1.), (.1, .5), (.02, 0.)):
                for warm in (False, True):
                    u.append(('poisson-%s-%d-%s-%s-%d'
                              % (solver, fi, alpha, l1, warm), unit_poisson,
                              (solver, fi, alpha, l1, warm, big)))
    for pen in ('l1', 'l2'):
        for fi in (True, False):
            for multi in (True, False):
                for C in (20., 2., np.inf):
                    if C == np.inf and pen == 'l1':
                        continue
                    u.append(('masked-%s-%d-%d-%s' % (pen, fi, multi, C),
                              unit_masked, (pen, fi, multi, C, big)))
    return u
