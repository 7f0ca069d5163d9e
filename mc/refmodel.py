"""Reference model of the UoI algorithm and its ingredients, in plain Python
and numpy, plus spies that record what the real inner models were given."""
import copy
import itertools

import numpy as np
from sklearn.base import clone
from sklearn.linear_model import LinearRegression

from mc.stubs import QUIET
from pyuoi.linear_model import UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic, \
    UoI_Poisson
from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
from pyuoi.linear_model.poisson import Poisson


def median(v):
    v = sorted(float(x) for x in v)
    k = len(v)
    return v[k // 2] if k % 2 else (v[k // 2 - 1] + v[k // 2]) / 2.


# ---------------------------------------------------------------- data

def dataset(name, kind):
    """Small fixed data sets. kind: 'linear', 'binary', 'multi', 'poisson'."""
    seed = {'a': 3, 'b': 11, 'c': 29, 'one': 5, 'wide': 8}[name]
    rng = np.random.RandomState(seed)
    n, p = {'a': (24, 4), 'b': (30, 5), 'c': (21, 3), 'one': (20, 1),
            'wide': (12, 14)}[name]
    X = rng.randn(n, p) * (1 + np.arange(p)) * .6 + np.arange(p) - .7
    if kind == 'multi':
        W = rng.randn(p, 3)
        W[0] = 0
        eta = X.dot(W) * .6
        y = (eta + rng.gumbel(size=eta.shape)).argmax(1)
        y[:6] = [0, 1, 2, 0, 1, 2]
        return X, y
    w = np.zeros(p)
    q = min(max(1, p // 2), 3)
    w[:q] = [1.5, -1., .7][:q]
    eta = X.dot(w)
    if kind == 'linear':
        return X, eta + 1.7 + .6 * rng.randn(n)
    if kind == 'binary':
        y = (eta - eta.mean() + rng.logistic(size=n) > 0).astype(int)
        y[:4] = [0, 1, 0, 1]
        return X, y
    if kind == 'poisson':
        X = X * .3
        y = rng.poisson(np.exp(.5 + X.dot(w))).astype(float)
        return X, y
    raise ValueError(kind)


def kind_of(cls, kw):
    if cls is UoI_L1Logistic:
        return 'multi' if kw.get('_multi') else 'binary'
    return 'poisson' if cls is UoI_Poisson else 'linear'


def datasets(cls, big):
    return ['a', 'c', 'one'] if not big else ['a', 'b', 'c', 'one']


def lattice(big):
    """(name, class, kwargs) of real estimator configurations."""
    out = []
    grid = dict(n_boots_sel=3, n_boots_est=4, stability_selection=[2, 3])
    for st in (False, True):
        for ic in (True, False):
            for sc in ('r2', 'AIC', 'AICc', 'BIC'):
                if not big and sc in ('AIC', 'AICc') and st != ic:
                    continue
                out.append(('lasso-%d%d-%s' % (st, ic, sc), UoI_Lasso,
                            dict(grid, n_lambdas=6, standardize=st,
                                 fit_intercept=ic, estimation_score=sc)))
            out.append(('enet-%d%d' % (st, ic), UoI_ElasticNet,
                        dict(grid, n_lambdas=4, standardize=st,
                             alphas=np.array([.3, .9]), fit_intercept=ic)))
            out.append(('pois-%d%d' % (st, ic), UoI_Poisson,
                        dict(grid, n_lambdas=5, standardize=st, tol=1e-8,
                             fit_intercept=ic, estimation_score='log')))
            for sh in (True, False):
                out.append(('log-%d%d%d' % (st, ic, sh), UoI_L1Logistic,
                            dict(grid, n_C=5, standardize=st, tol=1e-5,
                                 shared_support=sh, fit_intercept=ic,
                                 estimation_score='log', _multi=True)))
        out.append(('bin-%d' % st, UoI_L1Logistic,
                    dict(grid, n_C=5, standardize=st, tol=1e-7,
                         estimation_score='log')))
        out.append(('bin-acc-%d' % st, UoI_L1Logistic,
                    dict(grid, n_C=5, standardize=st, tol=1e-7)))
        out.append(('pois-bic-%d' % st, UoI_Poisson,
                    dict(grid, n_lambdas=5, standardize=st, tol=1e-8,
                         estimation_score='BIC')))
    return out


# ---------------------------------------------------------------- spies

class Spy(object):
    """Wraps an inner model, recording the data of every fit."""

    def __init__(self, inner):
        object.__setattr__(self, '_inner', inner)
        object.__setattr__(self, 'fits', [])

    def fit(self, X, y, *a, **k):
        self._inner.fit(X, y, *a, **k)
        mask = k.get('coef_mask')
        self.fits.append(dict(
            X=np.array(X, copy=True), y=np.array(y, copy=True),
            mask=None if mask is None else np.array(mask, copy=True),
            coef=np.array(self._inner.coef_, copy=True),
            intercept=np.array(self._inner.intercept_, copy=True),
            params=dict(self._inner.get_params())))
        return self

    def __getattr__(self, name):
        if name in ('_inner', 'fits'):
            raise AttributeError(name)
        return getattr(self._inner, name)

    def __sklearn_clone__(self):
        return self._twin(clone(self._inner))

    def __deepcopy__(self, memo):
        return self._twin(copy.deepcopy(self._inner, memo))

    def _twin(self, inner):
        new = type(self)(inner)
        object.__setattr__(new, 'fits', self.fits)
        return new

    def __setattr__(self, name, value):
        setattr(self._inner, name, value)

    def __delattr__(self, name):
        delattr(self._inner, name)


def make(cls, kw, **extra):
    kw = {k: v for k, v in kw.items() if not k.startswith('_')}
    kw.update(extra)
    kw.setdefault('logger', QUIET)
    return cls(**kw)


def fit_spied(cls, kw, data_id, frac=(.8, .6), seed=0, data=None, **extra):
    X, y = dataset(data_id, kind_of(cls, kw)) if data is None else data
    X0, y0 = X.copy(), y.copy()
    m = make(cls, kw, selection_frac=frac[0], estimation_frac=frac[1],
             random_state=1000 + seed, **extra)
    spy = dict(sel=Spy(m._selection_lm), est=Spy(m._estimation_lm))
    m._selection_lm, m._estimation_lm = spy['sel'], spy['est']
    m.fit(X, y)
    return m, X0, y0, spy


def match_rows(A, full, cols=None):
    """Row indices in `full` (distinct rows) of the rows of A."""
    full = np.asarray(full)
    if cols is not None:
        full = full[:, cols]
    out = []
    for r in np.asarray(A):
        hit = np.nonzero((np.abs(full - r) < 1e-9 *
                          (1 + np.abs(full))).all(1))[0]
        if hit.size != 1:
            return None
        out.append(int(hit[0]))
    return out


def scaled(m, X, y):
    """Data as the inner models should see it."""
    X = np.asarray(X, dtype=float)
    yy = np.asarray(y)
    if m.standardize:
        mu = X.mean(0) if m.fit_intercept else 0.
        sd = X.std(0)
        sd = np.where(sd == 0, 1., sd)
        X = (X - mu) / sd
    if isinstance(m, (UoI_Lasso, UoI_ElasticNet)):
        yy = yy.astype(float)
        if m.standardize:
            mu = yy.mean() if m.fit_intercept else 0.
            yy = (yy - mu) / (yy.std() or 1.)
    elif isinstance(m, UoI_L1Logistic):
        yy = np.unique(yy, return_inverse=True)[1]
    return X, yy


def scale_of(m, X, y):
    sx = np.asarray(X, float).std(0) if m.standardize else np.ones(X.shape[1])
    sx = np.where(sx == 0, 1., sx)
    sy = 1.
    if m.standardize and isinstance(m, (UoI_Lasso, UoI_ElasticNet)):
        sy = np.std(y) or 1.
    return sx, sy


def check_estimation(m, X, y, spy):
    """Yield (key, message) for each departure from the declared algorithm."""
    Xs, ys = scaled(m, X, y)
    n, p = Xs.shape
    S = [np.asarray(s) for s in m.supports_]
    fits = spy['est'].fits
    E = m.n_boots_est
    K = m.estimates_.shape[2] // p
    shared = np.shape(m.supports_)[1] == p
    nonempty = [i for i, s in enumerate(S) if s.any()]
    if m.scores_.shape != (E, len(S)) or m.estimates_.shape[:2] != (E,
                                                                    len(S)):
        yield 'lattice:shape', '%s %s' % (m.scores_.shape, m.estimates_.shape)
        return
    if len(fits) != E * len(nonempty):
        yield ('lattice:fits', '%d estimation fits for %d bootstraps and %d '
               'non-empty supports' % (len(fits), E, len(nonempty)))
        return
    seen = []
    for f in fits:
        # which support is this?
        if shared:
            cand = [i for i in nonempty if S[i].sum() == f['X'].shape[1]
                    and match_rows(f['X'], Xs, S[i]) is not None]
        else:
            cand = [i for i in nonempty if f['mask'] is not None and
                    (np.ravel(f['mask']).astype(bool) == S[i]).all()]
        if len(cand) != 1:
            yield ('lattice:data', 'an estimation fit saw data that is not '
                   'rows of the given data on one support')
            return
        i = cand[0]
        rows = match_rows(f['X'], Xs, S[i] if shared else None)
        if rows is None or len(set(rows)) != len(rows):
            yield 'lattice:rows', 'training rows repeat or are not samples'
            return
        if not np.allclose(f['y'], ys[rows], rtol=1e-9, atol=1e-12):
            yield ('lattice:pairing', 'responses are not those of the '
                   'training rows')
            return
        key = tuple(sorted(rows))
        if key not in seen:
            seen.append(key)
        b = seen.index(key)
        if b >= E:
            yield 'lattice:splits', 'more splits than bootstraps'
            return
        want = np.zeros(K * p)
        where = np.tile(S[i], K) if shared else S[i]
        c = np.ravel(f['coef'])
        want[where] = c if shared else c[S[i]]
        got = m.estimates_[b, i]
        if not np.array_equal(got, want):
            yield ('lattice:estimate', 'bootstrap %d support %d: recorded %s,'
                   ' fitted %s' % (b, i, got, want))
        # the fit is unregularized
        pr = f['params']
        if 'alpha' in pr and pr['alpha'] != 0:
            yield 'lattice:penalized', 'estimation used alpha=%r' % pr['alpha']
        if 'C' in pr and np.isfinite(pr['C']):
            yield 'lattice:penalized', 'estimation used C=%r' % pr['C']
        # and optimal: gradient of the mean loss vanishes on the support
        g = gradient(m, f, Xs, ys, rows, S[i], shared)
        if g > 2e-3:
            yield ('lattice:optimal', 'bootstrap %d support %d: gradient %g '
                   'at the recorded fit' % (b, i, g))
    for i, s in enumerate(S):
        if not s.any() and np.any(m.estimates_[:, i]):
            yield 'lattice:empty', 'empty support has non-zero estimates'
    ch = np.asarray(m.rp_max_idx_)
    for b in range(E):
        if not m.scores_[b, ch[b]] >= m.scores_[b].max():
            yield ('lattice:choice', 'bootstrap %d scores %s chosen %d'
                   % (b, m.scores_[b], ch[b]))
    sx, sy = scale_of(m, X, y)
    med = np.array([median(m.estimates_[np.arange(E), ch, j])
                    for j in range(K * p)]).reshape(K, p)
    want = med / sx * sy
    got = np.asarray(m.coef_).reshape(K, p)
    if not np.allclose(got, want, rtol=1e-8, atol=1e-12):
        yield 'lattice:median', 'coef_ %s expected %s' % (got, want)


def gradient(m, f, Xs, ys, rows, s, shared):
    """Sup-norm of the unpenalized mean-loss gradient of a recorded fit."""
    X = Xs[rows][:, s] if shared else Xs[rows]
    y = ys[rows]
    c = np.asarray(f['coef'])
    n = len(rows)
    b = np.ravel(f['intercept'])
    if isinstance(m, (UoI_Lasso, UoI_ElasticNet)):
        r = X.dot(np.ravel(c)) + (b if m.fit_intercept else 0) - y
        g = X.T.dot(r) / n
        gi = r.mean()
    elif isinstance(m, UoI_Poisson):
        r = np.exp(X.dot(np.ravel(c)) + (b if m.fit_intercept else 0)) - y
        g = X.T.dot(r) / n
        gi = r.mean()
    else:
        K = c.shape[0]
        eta = X.dot(c.T) + (b if m.fit_intercept else 0)
        if K == 1:
            r = 1 / (1 + np.exp(-eta[:, 0])) - y
            g, gi = X.T.dot(r)[None] / n, r.mean()
        else:
            e = np.exp(eta - eta.max(1, keepdims=True))
            r = e / e.sum(1, keepdims=True) - np.eye(K)[y]
            g, gi = r.T.dot(X) / n, r.mean(0)
        if not shared:
            g = np.ravel(g)[s]
    sc = 1 + np.abs(X).max()
    out = np.max(np.abs(g)) / sc if np.size(g) else 0.
    if m.fit_intercept:
        out = max(out, np.max(np.abs(gi)))
    return out
