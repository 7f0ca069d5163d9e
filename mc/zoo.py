"""Every estimator of the package in small configurations, with data to fit,
and a uniform way of observing what a fit published."""
import numpy as np
import scipy.sparse as sp

from mc.stubs import QUIET
from pyuoi.linear_model import (UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic,
                                UoI_Poisson)
from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
from pyuoi.linear_model.poisson import Poisson
from pyuoi.decomposition import UoI_CUR, CUR, UoI_NMF

ATTRS = ('coef_', 'intercept_', 'supports_', 'estimates_', 'scores_',
         'rp_max_idx_', 'reg_params_', 'n_supports_', 'n_reg_params_',
         'classes_', 'components_', 'column_indices_', 'bases_samples_',
         'bases_samples_labels_', 'bootstraps_', 'dissimilarity_',
         'n_components', 'reconstruction_err_')

UOI = dict(n_boots_sel=2, n_boots_est=2, stability_selection=[1, 2],
           selection_frac=.75, estimation_frac=.75, logger=QUIET)


def _uoi(cls, **kw):
    def make(rs, **over):
        return cls(random_state=rs, **dict(UOI, **dict(kw, **over)))
    return make


def _plain(cls, seeded=False, **kw):
    def make(rs, **over):
        k = dict(kw, **over)
        if seeded:
            k['random_state'] = rs
        return cls(**k)
    return make


# name -> (family, constructor taking a random state and overrides)
CONFIGS = {
    'lasso-cd': ('linear', _uoi(UoI_Lasso, n_lambdas=4)),
    'lasso-pyc': ('linear', _uoi(UoI_Lasso, n_lambdas=4, solver='pyc')),
    'lasso-raw': ('linear', _uoi(UoI_Lasso, n_lambdas=4, standardize=False,
                                 estimation_score='BIC')),
    'lasso-noint': ('linear', _uoi(UoI_Lasso, n_lambdas=4,
                                   fit_intercept=False)),
    'elastic': ('linear', _uoi(UoI_ElasticNet, n_lambdas=3,
                               alphas=np.array([.5, 1.]))),
    'elastic-default': ('linear', _uoi(UoI_ElasticNet, n_lambdas=3)),
    'logistic': ('logistic', _uoi(UoI_L1Logistic, n_C=3)),
    'logistic-multi': ('logistic', _uoi(
        UoI_L1Logistic, n_C=3, multi_class='multinomial',
        estimation_score='BIC')),
    'logistic-free': ('logistic', _uoi(
        UoI_L1Logistic, n_C=3, shared_support=False, fit_intercept=False,
        estimation_score='log')),
    'poisson': ('poisson', _uoi(UoI_Poisson, n_lambdas=3)),
    'poisson-cd': ('poisson', _uoi(UoI_Poisson, n_lambdas=3, solver='cd',
                                   alphas=np.array([.5, 1.]))),
    'poisson-noint': ('poisson', _uoi(UoI_Poisson, n_lambdas=3,
                                      fit_intercept=False,
                                      estimation_score='AICc')),
    'masked-l1': ('logistic', _plain(MaskedCoefLogisticRegression,
                                     penalty='l1', C=20.)),
    'masked-l2': ('logistic', _plain(MaskedCoefLogisticRegression,
                                     standardize=True, C=.5,
                                     class_weight='balanced')),
    'poisson-plain': ('poisson', _plain(Poisson, alpha=.05)),
    'poisson-plain-cd': ('poisson', _plain(Poisson, alpha=.05, solver='cd',
                                           l1_ratio=.5, standardize=True)),
    'poisson-plain-raw': ('poisson', _plain(Poisson, alpha=.05, solver='cd',
                                            l1_ratio=.5, standardize=False)),
    'cur': ('cur', _plain(CUR, seeded=True, max_k=2)),
    'cur-arpack': ('cur', _plain(CUR, seeded=True, max_k=2,
                                 algorithm='arpack')),
    'uoi-cur': ('cur', _plain(UoI_CUR, seeded=True, n_boots=3, max_k=2,
                              boots_frac=.7, stability_selection=2)),
    'nmf': ('nmf', _plain(UoI_NMF, seeded=True, n_boots=3, ranks=[2, 3],
                          nmf_max_iter=40, logger=QUIET)),
    'nmf-all': ('nmf', _plain(UoI_NMF, seeded=True, n_boots=3,
                              nmf_max_iter=40, use_dissimilarity=False,
                              logger=QUIET)),
    'nmf-cd': ('nmf', _plain(UoI_NMF, seeded=True, n_boots=4, ranks=3,
                             nmf_solver='cd', nmf_beta_loss='frobenius',
                             nmf_max_iter=60, db_min_samples=1,
                             logger=QUIET)),
}
LINEAR_UOI = [n for n, (f, _) in CONFIGS.items()
              if f in ('linear', 'logistic', 'poisson')
              and not n.startswith(('masked', 'poisson-plain'))]


def family(name):
    return CONFIGS[name][0]


def make(name, rs=None, **over):
    return CONFIGS[name][1](rs, **over)


_SHAPES = {'A': (14, 3), 'B': (11, 4), 'C': (16, 3), 'W': (9, 6),
           'S': (12, 1), 'E': (14, 3)}


def data(fam, tag):
    """Fixed data sets of a family; always freshly allocated.

    A, B, C: regular, of different sizes (C: three classes); S: one feature;
    K: constant response / rank-deficient; R*: rejected input; D: the X of A
    with another response; E: another X, the response of A.
    """
    if tag == 'D':
        X, y = data(fam, 'A')
        if y is None:
            return X[::-1] ** 2 + .1, None
        return X, np.roll(y, 5)
    if tag == 'E' and fam not in ('nmf', 'cur'):
        X, y = data(fam, 'A')
        g = np.random.RandomState(77)
        return g.randn(*X.shape) + .5 * y[:, None], y
    n, p = _SHAPES.get(tag, (13, 3))
    g = np.random.RandomState(100 + sum(map(ord, fam + tag)))
    X = g.randn(n, p)
    w = np.array([1.5, -1., .5, 0., 0., .75])[:p]
    if fam in ('nmf', 'cur'):
        H = np.array([[1., 1, 0, 0, 0, 0], [0, 0, 1, 1, 0, 0],
                      [0, 0, 0, 0, 1, 1]])[:, :max(p, 3) + 1]
        X = np.dot(g.rand(n, 3) ** 2, H) + .05 * g.rand(n, H.shape[1])
        if fam == 'cur':
            X = X + .3 * g.randn(*X.shape)
        if tag == 'K':
            X[:] = np.outer(np.arange(1., n + 1), np.ones(X.shape[1]))
        if tag == 'R1':
            X[0, 0] = -3. if fam == 'nmf' else np.nan
        if tag == 'R2':
            X = X[:, 0]
        return X, None
    eta = X.dot(w)
    if fam == 'linear':
        y = eta + .3 * g.randn(n) + 2.
    elif fam == 'logistic':
        if tag == 'C':
            y = np.digitize(eta + .3 * g.randn(n), [-.7, .7])
            y[:6] = [0, 1, 2, 0, 1, 2]
        else:
            y = (eta + .5 * g.randn(n) > 0).astype(int)
            y[:6] = [0, 1, 0, 1, 0, 1]
    else:
        y = g.poisson(np.exp(.4 * eta + .5)).astype(float)
        y[:2] = [0, 3]
    if tag == 'K':
        y = np.full(n, 1 if fam == 'logistic' else 2.)
    if tag == 'R1':
        X[1, 0] = np.nan
    if tag == 'R2':
        y = y[:-1]
    return X, y


def fit(est, fam, X, y, **kw):
    if fam == 'cur':
        # few expected columns, so that the draws matter
        kw.setdefault('c' if isinstance(est, CUR) else 'cs', 1.5)
    return est.fit(X, **kw) if y is None else est.fit(X, y, **kw)


def probe(fam, p):
    g = np.random.RandomState(5)
    X = g.rand(4, p) if fam in ('nmf', 'cur') else g.randn(4, p)
    return X


METHODS = ('predict', 'predict_mean', 'predict_proba', 'transform')


def observe(est, fam, p, references=False):
    """Everything a fitted estimator publishes, as {name: value}."""
    out = {}
    for a in ATTRS:
        if hasattr(est, a):
            v = getattr(est, a)
            if isinstance(v, np.ndarray) and not references:
                v = v.copy()
            out[a] = v
    Xp = probe(fam, p)
    for m in METHODS:
        if fam == 'linear' and m != 'predict':
            continue
        if hasattr(est, m):
            f = getattr(est, m)
            # (the error of the last transform is a result of its own)
            out[m] = f(Xp, reconstruction_err=False) \
                if fam == 'nmf' and m == 'transform' else f(Xp)
    return out


def differ(a, b, rtol=1e-9, atol=1e-11):
    """Name of the first difference between two observations, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return 'entries %s' % sorted(map(str, set(a) ^ set(b)))
        for k in a:
            d = differ(a[k], b[k], rtol, atol)
            if d:
                return '%s: %s' % (k, d)
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return 'lengths %d and %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol, atol)
            if d:
                return '[%d] %s' % (i, d)
        return None
    if sp.issparse(a):
        a = a.toarray()
    if sp.issparse(b):
        b = b.toarray()
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return None if a is b or a == b else '%r != %r' % (a, b)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return 'shapes %s and %s' % (x.shape, y.shape)
    if x.dtype.kind in 'OUS' or y.dtype.kind in 'OUS':
        return None if np.array_equal(x, y) else '%r != %r' % (a, b)
    if x.dtype.kind in 'bui' and y.dtype.kind in 'bui':
        return None if np.array_equal(x, y) else '%s != %s' % (x, y)
    if np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True):
        return None
    return '%s != %s' % (np.array2string(x.ravel()[:8]),
                         np.array2string(y.ravel()[:8]))


def snapshot(a):
    """Bitwise content of a caller-owned object."""
    if sp.issparse(a):
        parts = [a.format, a.shape]
        for k in ('data', 'indices', 'indptr', 'row', 'col', 'offsets'):
            if hasattr(a, k):
                parts.append((k, snapshot(getattr(a, k))))
        if a.format == 'lil':
            parts += [[list(r) for r in a.rows], [list(r) for r in a.data]]
        if a.format == 'dok':
            parts.append(sorted(a.items()))
        return repr(parts)
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return repr((a.shape, a.tolist()))
        return (a.shape, a.dtype.str, a.strides,
                np.ascontiguousarray(a).tobytes())
    return repr(a)
