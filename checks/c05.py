"""C05: recorded estimation scores equal the declared metric."""
import itertools

import numpy as np

from mc.dist import on_ranks
from mc.stubs import QUIET, SelLM, EstLM, StubLinear, ScriptedRS, design
from mc import refmodel as ref
from pyuoi.linear_model import UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic, \
    UoI_Poisson

PROPERTY = 'C05'
TECHNIQUE = ('exhaustive enumeration of response and prediction tables '
             'through the real fit (stub inner models), plus replay of the '
             'real estimators against a reference scorer')
BOUNDS = {
    'quick': 'all response x prediction tables of 3 scored rows over 3 levels '
             '(linear, Poisson), 2-3 classes (logistic), every metric, target '
             'and support size 0..3; real estimators: every metric x target x '
             'standardize x intercept x label encoding on 2 data sets; the '
             'same on 2 and 5 ranks',
    'thorough': 'as quick with 4 scored rows for the classifiers, 3 data sets'}
ASSUMPTIONS = ['the inner model in use when a support is scored is the one '
               'just fitted on it',
               'log-loss clips probabilities to the machine epsilon']

LIN = ('r2', 'AIC', 'AICc', 'BIC')
LOG = ('acc', 'log', 'AIC', 'AICc', 'BIC')
POI = ('log', 'AIC', 'AICc', 'BIC')
HELD = {'r2', 'acc', 'log'}
EPS = np.finfo(float).eps


def ic(metric, ll, k, n):
    """Negated information criterion from a total log-likelihood."""
    if metric == 'BIC':
        return -(k * np.log(n) - 2 * ll)
    a = 2 * k - 2 * ll
    if metric == 'AICc' and n > k + 1:
        a += 2. * k * (k + 1) / (n - k - 1)
    return -a


def linear_score(metric, y, p, k):
    y, p = np.asarray(y, float), np.asarray(p, float)
    n = len(y)
    rss = float(sum((a - b) ** 2 for a, b in zip(y, p)))
    if metric == 'r2':
        tot = float(sum((a - y.mean()) ** 2 for a in y))
        if tot == 0:
            return 1. if rss == 0 else 0.
        return 1 - rss / tot
    ll = -n / 2. * (1 + (np.log(rss / n) if rss else -np.inf))
    return ic(metric, ll, k, n)


def logistic_score(metric, y, P, k):
    """P: n x K probabilities of the encoded classes; y encoded."""
    n = len(y)
    if metric == 'acc':
        return float(np.mean([int(np.argmax(P[i])) == y[i]
                              for i in range(n)]))
    P = np.clip(P, EPS, 1 - EPS)
    P = P / P.sum(1, keepdims=True)
    ll = float(sum(np.log(P[i][y[i]]) for i in range(n)))
    return ll / n if metric == 'log' else ic(metric, ll, k, n)


def poisson_score(metric, y, mu, k):
    n = len(y)
    if np.any(np.isinf(mu)):
        # no count is consistent with a mean that overflows
        ll = -np.inf
    elif not np.any(mu):
        ll = -np.inf if np.any(y) else 0.
    else:
        ll = float(sum((a * np.log(b) if a else 0.) - b
                       for a, b in zip(y, mu)))
    return ll / n if metric == 'log' else ic(metric, ll, k, n)


def same(a, b, tol=1e-9):
    a, b = float(a), float(b)
    if a == b or (np.isnan(a) and np.isnan(b)):
        return True
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


# ---------------------------------------------------------------- stub runs

def stub_fit(family, metric, target, y, size, F, predict, proba=None, K=1,
             fit_intercept=True, extra_rows=3):
    """One fit with one bootstrap; the scored rows are 0..len(y)-4."""
    n = len(y)
    t = target or ('test' if metric in HELD else 'train')
    scored = tuple(range(n - extra_rows))
    held = scored if t == 'test' else tuple(range(n - extra_rows, n))
    sup = [1] * size + [0] * (F - size)
    regs = [np.tile(sup, K)]
    sel = SelLM(lambda rows, p: regs[0], shape=(K, F)
                if family == 'logistic' else None)
    est = EstLM(lambda rows, cols: np.ones(K * len(cols)),
                lambda tr, cols, at: predict(at), proba)
    frac = 1 - (len(held) - .5) / n
    kw = dict(n_boots_sel=1, n_boots_est=1, stability_selection=1,
              selection_frac=frac, estimation_frac=frac,
              estimation_score=metric, estimation_target=target,
              random_state=ScriptedRS([held, held]), standardize=False,
              fit_intercept=fit_intercept, logger=QUIET)
    if family == 'linear':
        m = StubLinear(sel, est, 1, **kw)
    else:
        cls = UoI_L1Logistic if family == 'logistic' else UoI_Poisson
        key = 'C' if family == 'logistic' else 'alpha'

        class M(cls):
            def get_reg_params(self, X, y):
                return [{key: 0}]
        m = M(**kw)
        m._selection_lm, m._estimation_lm = sel, est
    m.fit(design(n, F), y)
    return m, scored, [i for i in range(n) if i not in held]


def unit_linear(rec, metric, target, size):
    tail = [7., 2., 11.]
    for yv in itertools.product((0., 1., 3.), repeat=3):
        y = np.array(list(yv) + tail)
        for pv in itertools.product((0., 1., 2.5), repeat=3):
            full = np.array(list(pv) + [50., 60., 70.])
            m, at, tr = stub_fit('linear', metric, target, y, size, 3,
                                 lambda rows: full[list(rows)])
            if size:
                p = full[list(at)]
            else:
                p = np.full(3, y[tr].mean())
            want = linear_score(metric, y[list(at)], p, size)
            rec.step()
            rec.trace()
            rec.state(metric, target, size, round(want, 9))
            rec.check(m.scores_.shape == (1, 1) and
                      same(m.scores_[0, 0], want), 'linear:%s' % metric,
                      'responses %s predictions %s size %d: recorded %r, %s '
                      'is %r' % (yv, p, size, m.scores_, metric, want))
            if not size:
                break
    rec.sample(metric=metric, y=yv, prediction=p, size=size, score=want)


def unit_linear_noint(rec, metric, target):
    """Empty support without intercept: the zero model."""
    tail = [7., 2., 11.]
    for yv in itertools.product((0., 1., 3., -2.), repeat=3):
        y = np.array(list(yv) + tail)
        m, at, tr = stub_fit('linear', metric, target, y, 0, 2,
                             lambda rows: np.zeros(len(rows)),
                             fit_intercept=False)
        want = linear_score(metric, y[list(at)], np.zeros(3), 0)
        rec.step()
        rec.trace()
        rec.state('noint', metric, target, round(want, 9))
        rec.check(same(m.scores_[0, 0], want), 'linear-empty:%s' % metric,
                  'responses %s: recorded %r, expected %r'
                  % (yv, m.scores_, want))


def unit_poisson(rec, metric, target, size):
    tail = [7., 2., 0.]
    for yv in itertools.product((0., 1., 3.), repeat=3):
        y = np.array(list(yv) + tail)
        for pv in itertools.product((.5, 1., 4., np.inf), repeat=3):
            full = np.array(list(pv) + [50., 60., 70.])
            for ic_ in (True, False):
                m, at, tr = stub_fit('poisson', metric, target, y, size, 3,
                                     lambda rows: full[list(rows)],
                                     fit_intercept=ic_)
                k = size
                if size:
                    mu = full[list(at)]
                else:
                    mu = np.full(3, y[tr].mean() if ic_ else 1.)
                    # the intercept of the intercept-only model counts
                    k += int(ic_ and y[tr].mean() != 1.)
                want = poisson_score(metric, y[list(at)], mu, k)
                rec.step()
                rec.trace()
                rec.state(metric, target, size, round(want, 9))
                rec.check(same(m.scores_[0, 0], want), 'poisson:%s' % metric,
                          'responses %s means %s size %d: recorded %r, %s is '
                          '%r' % (yv, mu, size, m.scores_, metric, want))
            if not size:
                break
    rec.sample(metric=metric, y=yv, mean=mu, size=size, score=want)


ENCODINGS = {2: [(0, 1), (1, 2), (-1, 1), ('a', 'b'), (0.5, 2.5),
                 (True, False), (7, -3)],
             3: [(0, 1, 2), (1, 2, 3), (9, 3, 5), ('x', 'y', 'b'),
                 (-1, 0, 1)]}


def unit_logistic(rec, metric, target, size, K, enc, nrow):
    """K classes; labels from `enc`; every response and prediction table."""
    names = np.array(enc)
    order = np.unique(names)
    tail = (np.arange(3) % K)
    F = 3
    palette = {2: [(.8, .2), (.3, .7), (.45, .55)],
               3: [(.6, .3, .1), (.2, .5, .3), (.1, .2, .7)]}[K]
    for yv in itertools.product(range(K), repeat=nrow):
        ycode = np.array(list(yv) + list(tail))
        y = order[ycode]
        for pv in itertools.product(range(3), repeat=nrow):
            P = np.array([palette[i] for i in pv] + [palette[0]] * 3)
            m, at, tr = stub_fit(
                'logistic', metric, target, y, size, F,
                lambda rows: P[list(rows)].argmax(1),
                lambda rows: P[list(rows)], K=1 if K == 2 else K)
            if size:
                p = P[list(at)]
            else:
                q = np.array([np.mean(ycode[tr] == c) for c in range(K)])
                p = np.tile(q, (nrow, 1))
                if metric == 'acc' and sorted(q)[-1] == sorted(q)[-2]:
                    break                                   # a tie
                if (q == 0).any() and metric != 'acc' and K == 2:
                    q = np.clip(q, 1e-10, 1 - 1e-10)
                    p = np.tile(q, (nrow, 1))
                elif (q == 0).any():
                    break
            want = logistic_score(metric, ycode[list(at)], p, size)
            rec.step()
            rec.trace()
            rec.state(metric, target, size, K, round(want, 9))
            rec.check(same(m.scores_[0, 0], want, 1e-7),
                      'logistic:%s' % metric,
                      'labels %s classes %s size %d: recorded %r, %s is %r'
                      % (list(y), list(order), size, m.scores_, metric, want),
                      probabilities=p)
            if not size:
                break
    rec.sample(metric=metric, classes=list(order), y=yv, picks=pv)


# ------------------------------------------------------------ real estimators

def predict_of(m, f, Xs, s, shared):
    """Predictions of a recorded inner fit at all rows."""
    X = Xs[:, s] if shared else Xs
    c = np.asarray(f['coef'])
    b = np.ravel(f['intercept']) if m.fit_intercept else 0.
    if isinstance(m, (UoI_Lasso, UoI_ElasticNet)):
        return X.dot(np.ravel(c)) + b
    if isinstance(m, UoI_Poisson):
        return np.exp(X.dot(np.ravel(c)) + b)
    eta = X.dot(np.atleast_2d(c).T) + b
    return proba(eta)


def proba(eta):
    if eta.shape[1] == 1:
        p = 1 / (1 + np.exp(-eta[:, 0]))
        return np.stack([1 - p, p], 1)
    e = np.exp(eta - eta.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def unit_real(rec, cls, kw, data_id, enc, variants, size=1):
    kind = ref.kind_of(cls, kw)
    X, y0 = ref.dataset(data_id, kind)
    n, p = X.shape
    y = y0
    if enc is not None:
        y = np.unique(np.array(enc))[y0]
    h = n // 3
    helds = [tuple(range(i, n, 3))[:h] for i in range(3)] + \
        [tuple(range(h)), tuple(range(n - h, n))]
    for metric, target, st, fi in variants:
        kk = dict(kw, estimation_score=metric, estimation_target=target,
                  standardize=st, fit_intercept=fi)
        E = 3

        def fit(comm, r):
            m = ref.make(cls, kk, n_boots_sel=2, n_boots_est=E,
                         stability_selection=[1, 2],
                         selection_frac=1 - (h - .5) / n,
                         estimation_frac=1 - (h - .5) / n, comm=comm,
                         random_state=ScriptedRS(helds[3:] + helds[:3]))
            spy = ref.Spy(m._estimation_lm)
            m._estimation_lm = spy
            return m.fit(X.copy(), y.copy()), spy.fits
        got = on_ranks(rec, size, fit)
        if got is None:
            continue
        m = got[-1][0]
        fits = [f for _, fs in got for f in fs]
        Xs, ys = ref.scaled(m, X, y)
        S = [np.asarray(s) for s in m.supports_]
        shared = m.supports_.shape[1] == p
        K = m.estimates_.shape[2] // p
        t = target or ('test' if metric in HELD else 'train')
        data = dict(cls=cls.__name__, metric=metric, target=target,
                    standardize=st, fit_intercept=fi, enc=enc, ranks=size)
        rec.trace()
        for b in range(E):
            tr = sorted(set(range(n)) - set(helds[b]))
            at = list(helds[b]) if t == 'test' else tr
            for i, s in enumerate(S):
                k = int(s.sum())
                if k:
                    cand = [f for f in fits
                            if f['X'].shape[0] == len(tr)
                            and (not shared or f['X'].shape[1] == k)
                            and (shared or (np.ravel(f['mask']).astype(bool)
                                            == s).all())
                            and sorted(map(tuple, f['X'])) ==
                            sorted(map(tuple, m_rows(
                                f, Xs[tr][:, s] if shared else Xs[tr])))]
                    if not rec.check(len(cand) == 1, 'real:fit',
                                     '%d recorded fits for bootstrap %d '
                                     'support %s' % (len(cand), b, s),
                                     **data):
                        continue
                    f = cand[0]
                    pr = predict_of(m, f, Xs[at], s, shared)
                    if cls is UoI_Poisson:
                        k += int(np.any(f['intercept'] != 0) and fi)
                elif cls is UoI_L1Logistic:
                    q = np.array([np.mean(ys[tr] == c)
                                  for c in range(max(K, 2))])
                    if not fi:
                        q = np.ones(max(K, 2)) / max(K, 2)
                    pr = np.tile(q, (len(at), 1))
                elif cls is UoI_Poisson:
                    mu = ys[tr].mean() if fi else 1.
                    pr = np.full(len(at), mu)
                    k += int(fi and mu != 1)
                else:
                    pr = np.full(len(at), ys[tr].mean() if fi else 0.)
                if cls is UoI_L1Logistic:
                    if metric == 'acc':
                        top = np.sort(pr, 1)
                        if (top[:, -1] - top[:, -2] < 1e-9).any():
                            continue
                    want = logistic_score(metric, ys[at], pr, k)
                elif cls is UoI_Poisson:
                    want = poisson_score(metric, ys[at], pr, k)
                else:
                    want = linear_score(metric, ys[at], pr, k)
                rec.step()
                rec.state(cls.__name__, metric, target, st, fi, data_id,
                          b, i, round(want, 6))
                rec.check(same(m.scores_[b, i], want, 1e-6),
                          'real:%s:%s' % (cls.__name__, metric),
                          'bootstrap %d support %s: recorded %r, expected %r'
                          % (b, s.astype(int), m.scores_[b, i], want), **data)
    rec.sample(model=cls.__name__, metric=metric, score=want)


def m_rows(f, A):
    """Rows of A snapped to the recorded rows they match."""
    F = f['X']
    if F.shape != A.shape:
        return A
    out = []
    for r in A:
        d = np.abs(F - r).max(1)
        j = int(d.argmin())
        out.append(F[j] if d[j] < 1e-9 * (1 + np.abs(r).max()) else r)
    return np.array(out)


def units(tier):
    big = tier == 'thorough'
    u = []
    tg = (None, 'train', 'test')
    for metric in LIN:
        for target in tg:
            for size in (0, 1, 3):
                if target is not None and size == 3 and not big:
                    continue
                u.append(('lin-%s-%s-%d' % (metric, target, size),
                          unit_linear, (metric, target, size)))
            u.append(('lin0-%s-%s' % (metric, target), unit_linear_noint,
                      (metric, target)))
    for metric in POI:
        for target in tg:
            for size in (0, 2):
                if target is not None and size and not big:
                    if (metric == 'log') == (target == 'test'):
                        continue
                u.append(('poi-%s-%s-%d' % (metric, target, size),
                          unit_poisson, (metric, target, size)))
    for K in (2, 3):
        for metric in LOG:
            for target in tg:
                for j, enc in enumerate(ENCODINGS[K]):
                    if j and (target is not None or
                              (metric in ('AIC', 'AICc') and not big)):
                        continue
                    for size in (0, 2):
                        nr = 3 if big and K == 2 else 2
                        u.append(('log-%s-%s-%d-%d-%d'
                                  % (metric, target, K, j, size),
                                  unit_logistic,
                                  (metric, target, size, K, enc, nr)))
    flags = list(itertools.product((True, False), repeat=2))
    for d in ('a', 'c', 'one') if big else ('a', 'one'):
        for cls, kw, metrics in (
                (UoI_Lasso, dict(n_lambdas=6), LIN),
                (UoI_ElasticNet, dict(n_lambdas=4,
                                      alphas=np.array([.4, .9])), LIN),
                (UoI_Poisson, dict(n_lambdas=5, tol=1e-8), POI)):
            for metric in metrics:
                for t in tg:
                    u.append(('real-%s-%s-%s-%s' % (cls.__name__, metric, t,
                                                    d), unit_real,
                              (cls, kw, d, None,
                               [(metric, t, a, b) for a, b in flags])))
        for metric in LOG:
            for t in tg:
                u.append(('real-bin-%s-%s-%s' % (metric, t, d), unit_real,
                          (UoI_L1Logistic, dict(n_C=4, tol=1e-6), d, (0, 1),
                           [(metric, t, a, b) for a, b in flags])))
                if d == 'one':
                    continue
                for sh in (True, False):
                    if t is not None and not big:
                        continue
                    u.append(('real-multi-%s-%s-%s-%d' % (metric, t, d, sh),
                              unit_real,
                              (UoI_L1Logistic,
                               dict(n_C=3, tol=1e-5, shared_support=sh,
                                    _multi=True), d, (0, 1, 2),
                               [(metric, t, True, True),
                                (metric, t, False, False)])))
            for j, enc in enumerate(ENCODINGS[2][1:]):
                u.append(('real-enc-%s-%s-%d' % (metric, d, j), unit_real,
                          (UoI_L1Logistic, dict(n_C=4, tol=1e-6), d, enc,
                           [(metric, None, True, True)])))
    for size, d in ((2, 'a'), (5, 'a')) + (((3, 'one'), (4, 'a')) if big
                                           else ()):
        for cls, kw, metric in (
                (UoI_Lasso, dict(n_lambdas=4), 'r2'),
                (UoI_Lasso, dict(n_lambdas=4), 'BIC'),
                (UoI_Poisson, dict(n_lambdas=4, tol=1e-8), 'log'),
                (UoI_Poisson, dict(n_lambdas=4, tol=1e-8), 'AICc'),
                (UoI_L1Logistic, dict(n_C=3, tol=1e-6), 'acc'),
                (UoI_L1Logistic, dict(n_C=3, tol=1e-6), 'BIC')):
            u.append(('ranks-%d-%s-%s-%s' % (size, cls.__name__, metric, d),
                      unit_real, (cls, kw, d, (0, 1) if cls is UoI_L1Logistic
                                  else None,
                                  [(metric, t, True, True) for t in tg],
                                  size)))
    return u
