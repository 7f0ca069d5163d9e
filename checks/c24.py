"""C24: invalid options and data are rejected up front, valid accepted."""
import itertools
import logging

import numpy as np
import scipy.sparse as sp
from sklearn.cluster import DBSCAN
from sklearn.decomposition import NMF as skNMF
from sklearn.exceptions import NotFittedError
from sklearn.linear_model import LinearRegression

from mc import zoo
from mc.stubs import QUIET
from pyuoi.decomposition import CUR, UoI_CUR, UoI_NMF
from pyuoi.decomposition.NMF import UoI_NMF_Base
from pyuoi.linear_model import (UoI_ElasticNet, UoI_L1Logistic, UoI_Lasso,
                                UoI_Poisson)
from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
from pyuoi.linear_model.poisson import Poisson

PROPERTY = 'C24'
TECHNIQUE = ('exhaustive enumeration of the documented option products and '
             'of all invalid option and data kinds of every estimator, and '
             'explicit-state exploration of all sequences of rejected calls '
             'followed by a valid fit, differential against a fresh object')
BOUNDS = {
    'quick': 'all documented option products of 9 estimator classes; 70 '
             'invalid option values; 22 configurations x up to 24 kinds of '
             'rejected calls, singly and in all ordered pairs for 6 '
             'configurations; 22 configurations x all methods before fit',
    'thorough': 'all ordered pairs of rejected calls for all configurations '
                'and all triples for 6 of them, on a new and on a fitted '
                'object'}
ASSUMPTIONS = ['data kinds whose rejection is not documented (missing class '
               'labels, negative counts, missing values in a plain Poisson '
               'fit) are not judged',
               'up front: no inner model has been fitted when the call is '
               'rejected']

LIN = dict(n_boots_sel=2, n_boots_est=2, logger=QUIET)
SMALL = {UoI_Lasso: dict(n_lambdas=3), UoI_ElasticNet: dict(
    n_lambdas=2, alphas=np.array([.5, 1.])), UoI_L1Logistic: dict(n_C=2),
    UoI_Poisson: dict(n_lambdas=2)}
METRICS = {UoI_Lasso: ('r2', 'AIC', 'AICc', 'BIC'),
           UoI_ElasticNet: ('r2', 'AIC', 'AICc', 'BIC'),
           UoI_L1Logistic: ('acc', 'log', 'AIC', 'AICc', 'BIC'),
           UoI_Poisson: ('log', 'AIC', 'AICc', 'BIC')}
FAM = {UoI_Lasso: 'linear', UoI_ElasticNet: 'linear',
       UoI_L1Logistic: 'logistic', UoI_Poisson: 'poisson'}


class Counter(object):
    """Counts the fits of the inner models of an estimator."""

    def __init__(self, est):
        self.n = 0
        for a in ('_selection_lm', '_estimation_lm', 'nmf', 'cluster'):
            inner = getattr(est, a, None)
            if inner is not None and hasattr(inner, 'fit'):
                self.wrap(inner)

    def wrap(self, inner):
        f = inner.fit

        def fit(*args, **kw):
            self.n += 1
            return f(*args, **kw)
        try:
            inner.fit = fit
        except AttributeError:
            pass


def finite(est):
    for a in ('coef_', 'intercept_', 'components_'):
        if hasattr(est, a):
            v = getattr(est, a)
            if not np.isfinite(v.toarray() if sp.issparse(v) else v).all():
                return '%s is %s' % (a, v)
    return None


def unit_valid_linear(rec, cls, metric):
    fam = FAM[cls]
    extra = {UoI_Lasso: [dict(solver='cd'), dict(solver='pyc')],
             UoI_ElasticNet: [dict(), dict(alphas=[.3, 1.]),
                              dict(warm_start=False)],
             UoI_L1Logistic: [dict(multi_class=m, shared_support=s,
                                   warm_start=w)
                              for m in ('auto', 'multinomial')
                              for s in (True, False)
                              for w in (True, False)],
             UoI_Poisson: [dict(solver=s, warm_start=w, alphas=al)
                           for s in ('lbfgs', 'cd') for w in (True, False)
                           for al in (np.array([1.]), [.5, 1.])]}[cls]
    stab = [1, 2, 1., .5, [1, 2], [.5, 1.], np.array([1, 2]),
            np.array([.5, 1.])]
    for target in (None, 'train', 'test'):
        for si, kw in enumerate(extra):
            for icpt in (True, False):
                for std in (True, False):
                    if kw.get('solver') == 'pyc' and not icpt:
                        continue        # documented as unsupported
                    # the thresholds only matter in a product with nothing
                    for st in stab if (icpt and std and si == 0) else [.5]:
                        opts = dict(SMALL[cls], estimation_score=metric,
                                    estimation_target=target,
                                    fit_intercept=icpt, standardize=std,
                                    stability_selection=st, random_state=1,
                                    **LIN)
                        opts.update(kw)
                        for tag in 'AC' if fam == 'logistic' else 'A':
                            valid(rec, cls, opts, fam, tag)
    rec.sample(estimator=cls.__name__, metric=metric, options=len(extra))


def valid(rec, cls, opts, fam, tag='A', fit_kw=None):
    X, y = zoo.data(fam, tag)
    shown = {k: v for k, v in opts.items()
             if k not in ('logger', 'n_boots_sel', 'n_boots_est')}
    rec.state(cls.__name__, repr(shown), tag, repr(fit_kw))
    rec.step()
    rec.trace()
    try:
        est = cls(**opts)
        est.fit(*([X] if y is None else [X, y]), **(fit_kw or {}))
        bad = finite(est)
        for m in zoo.METHODS:
            if hasattr(est, m) and (fam != 'linear' or m == 'predict'):
                v = getattr(est, m)(X)
                if sp.issparse(v):
                    v = v.toarray()
                if not len(v) == len(X):
                    bad = '%s gives %s' % (m, np.shape(v))
    except Exception as e:
        rec.fail('rejected:%s:%s' % (cls.__name__, type(e).__name__),
                 '%s(%r) with %r on data %s: %r' % (cls.__name__, shown,
                                                    fit_kw, tag, e))
        return
    rec.check(bad is None, 'result:%s' % cls.__name__, '%s(%r): %s'
              % (cls.__name__, shown, bad))


def unit_valid_plain(rec):
    for pen, mc, cw, ws, icpt, std in itertools.product(
            ('l1', 'l2'), ('auto', 'multinomial'),
            (None, 'balanced', {0: 1., 1: 2.}), (True, False),
            (True, False), (True, False)):
        for tag in 'AC':
            if isinstance(cw, dict) and tag == 'C':
                cw = {0: 1., 1: 2., 2: .5}
            for C in (1, .5, np.float32(2), 10 ** 3):
                valid(rec, MaskedCoefLogisticRegression, dict(
                    penalty=pen, multi_class=mc, class_weight=cw,
                    warm_start=ws, fit_intercept=icpt, standardize=std,
                    C=C), 'logistic', tag)
    valid(rec, MaskedCoefLogisticRegression, dict(C=np.inf), 'logistic', 'C')
    for s, r, a, ws, icpt, std in itertools.product(
            ('lbfgs', 'cd'), (0, 0., .5, 1, 1.), (0, .1, 1),
            (True, False), (True, False), (True, False)):
        valid(rec, Poisson, dict(solver=s, l1_ratio=r, alpha=a,
                                 warm_start=ws, fit_intercept=icpt,
                                 standardize=std), 'poisson')


def unit_valid_cur(rec):
    gens = (0, None, np.random.RandomState(3))
    for alg, k, c, rs in itertools.product(
            ('randomized', 'arpack'), (1, 2, 3), (None, 1, 2.5), gens):
        valid(rec, CUR, dict(max_k=k, algorithm=alg, random_state=rs),
              'cur', fit_kw=dict(c=c))
    for alg, ks, cs, st, rs in itertools.product(
            ('randomized', 'arpack'), (None, 1, 2, [1], [1, 2],
                                       np.array([2, 1])),
            (None, 3, 2.5, 'list', 'array'), (1, 2, .5, 1.), gens):
        n = 2 if ks is None else np.size(ks)
        if cs == 'list':
            cs = [2, 3.5][:n]
        elif isinstance(cs, str):
            cs = np.array([2, 3])[:n]
        for frac in (.7, 1):
            valid(rec, UoI_CUR, dict(
                n_boots=2, max_k=2, boots_frac=frac, algorithm=alg,
                stability_selection=st, random_state=rs), 'cur',
                fit_kw=dict(ks=ks, cs=cs))


def unit_valid_nmf(rec):
    for ranks in (2, 3, [2], [3, 2], (2, 3), range(2, 4), np.array([2, 3]),
                  None):
        for ud in (True, False):
            for rs in (0, np.int64(1), None, np.random.RandomState(0)):
                valid(rec, UoI_NMF, dict(
                    n_boots=2, ranks=ranks, use_dissimilarity=ud,
                    random_state=rs, nmf_max_iter=20, logger=QUIET), 'nmf')
    for nmf in (None, skNMF(max_iter=20, init='random')):
        for cl in (None, DBSCAN(min_samples=1)):
            for reg in (None, LinearRegression(positive=True),
                        LinearRegression(fit_intercept=False, positive=True),
                        lambda A, b: np.abs(A.T.dot(b))):
                for cons in (None, np.mean, np.median):
                    valid(rec, UoI_NMF_Base, dict(
                        n_boots=2, ranks=[2], nmf=nmf, cluster=cl, nnreg=reg,
                        cons_meth=cons, random_state=0, logger=QUIET), 'nmf')
    for init in ('random', 'nndsvda', 'nndsvdar', 'nndsvd'):
        for solver, loss in (('mu', 'kullback-leibler'), ('mu', 'frobenius'),
                             ('mu', 'itakura-saito'), ('mu', 1.5),
                             ('cd', 'frobenius')):
            for met, alg in (('euclidean', 'auto'), ('cosine', 'brute'),
                             ('euclidean', 'kd_tree')):
                valid(rec, UoI_NMF, dict(
                    n_boots=2, ranks=[2, 3], nmf_init=init,
                    nmf_solver=solver, nmf_beta_loss=loss, nmf_max_iter=15,
                    db_metric=met, db_algorithm=alg, db_min_samples=1,
                    db_eps=.3, random_state=0, logger=QUIET), 'nmf')


class AnyFactorizer(object):
    """A factorizer that takes whatever it is given."""

    def __init__(self):
        self.fits = 0

    def set_params(self, **kw):
        self.__dict__.update(kw)
        return self

    def get_params(self, deep=True):
        return {}

    def fit(self, X):
        self.fits += 1
        self.components_ = np.abs(np.resize(X, (self.n_components,
                                                X.shape[1]))) + .1
        return self


def unit_own_factorizer(rec):
    """UoI_NMF_Base does not rely on its factorizer to reject negative
    data: every position x value."""
    X = np.arange(1., 13.).reshape(4, 3)
    for i in range(4):
        for j in range(3):
            for v in (-1e-12, -1e-3, -5., -1e300):
                for ud in (True, False):
                    Z = X.copy()
                    Z[i, j] = v
                    nmf = AnyFactorizer()
                    est = UoI_NMF_Base(n_boots=2, ranks=[2], nmf=nmf,
                                       use_dissimilarity=ud, random_state=0,
                                       logger=QUIET)
                    rec.step()
                    rec.state(i, j, v, ud)
                    what = 'own factorizer, %g at %s' % (v, (i, j))
                    try:
                        est.fit(Z)
                        rec.fail('accepted:own-factorizer', what)
                    except ValueError:
                        rec.check(nmf.fits == 0, 'late:own-factorizer',
                                  '%s: rejected after %d inner fits'
                                  % (what, nmf.fits))
                    except Exception as e:
                        rec.fail('type:own-factorizer', '%s: %r' % (what, e))
                    est.fit(X)
                    rec.check(nmf.fits > 0, 'harness:factorizer', what)


# ------------------------------------------------------- invalid options
BAD_OPTIONS = []
for _c in (UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic, UoI_Poisson):
    for _m in ('foo', '', None, 'R2', 'aic', 'r2', 'acc', 'log', 1, 'rmse'):
        if _m not in METRICS[_c]:
            BAD_OPTIONS.append((_c, dict(estimation_score=_m), 'init'
                                if (_c, _m) != (UoI_Poisson, 'acc')
                                else 'fit'))
    for _m in ('foo', '', 0, 1, 'Train', 'both', True):
        BAD_OPTIONS.append((_c, dict(estimation_target=_m), 'init'))
    for _m in (0, 3, -1, 0., 1.5, -.5, 'a', [0, 1], [.1], None, [1, 3],
               [1, 1.], [.5, 1], [1., 'a']):
        BAD_OPTIONS.append((_c, dict(stability_selection=_m), 'init'))
for _m in ('foo', '', None, 'CD', 'lbfgs', 'pycasso'):
    BAD_OPTIONS.append((UoI_Lasso, dict(solver=_m), 'init'))
for _m in ('foo', '', None, 'CD', 'pyc', 'newton'):
    BAD_OPTIONS.append((UoI_Poisson, dict(solver=_m), 'init'))
    BAD_OPTIONS.append((Poisson, dict(solver=_m), 'fit'))
for _m in ('foo', '', None, 'ovr', 'Auto'):
    BAD_OPTIONS.append((UoI_L1Logistic, dict(multi_class=_m), 'init'))
    BAD_OPTIONS.append((MaskedCoefLogisticRegression, dict(multi_class=_m),
                        'init'))
for _m in (dict(penalty='foo'), dict(penalty='L1'), dict(C=-1), dict(C='a'),
           dict(C=None), dict(C=0), dict(max_iter=-1), dict(max_iter='a'),
           dict(tol=-1.), dict(tol='a')):
    BAD_OPTIONS.append((MaskedCoefLogisticRegression, _m, 'fit'))
for _m in (dict(nmf=skNMF), dict(cluster=DBSCAN), dict(nnreg=2),
           dict(nnreg='nnls'), dict(nnreg=LinearRegression),
           dict(nnreg=0), dict(nnreg=''), dict(nnreg=False), dict(nnreg=[]),
           dict(ranks=2.5), dict(ranks='ab'), dict(ranks={2, 3}),
           dict(n_boots=1)):
    BAD_OPTIONS.append((UoI_NMF_Base, _m, 'init'))
for _m in (dict(ranks=2.5), dict(ranks='3'), dict(n_boots=1)):
    BAD_OPTIONS.append((UoI_NMF, dict(dict(n_boots=2), **_m), 'init'))
for _c, _kw in ((CUR, dict(max_k=2)), (UoI_CUR, dict(
        n_boots=2, max_k=2, boots_frac=.7))):
    BAD_OPTIONS.append((_c, dict(_kw, algorithm='foo'), 'fit'))


def unit_bad_options(rec):
    for cls, kw, when in BAD_OPTIONS:
        name = '%s(%r)' % (cls.__name__, kw)
        rec.state(name)
        rec.step()
        rec.trace()
        opts = dict(kw)
        if cls in SMALL:
            opts.update(SMALL[cls])
            opts.update(LIN)
            opts.update(kw)
        elif cls in (UoI_NMF, UoI_NMF_Base):
            opts.update(logger=QUIET)
        fam = FAM.get(cls, 'nmf' if cls in (UoI_NMF, UoI_NMF_Base) else
                      'cur' if cls in (CUR, UoI_CUR) else
                      'poisson' if cls is Poisson else 'logistic')
        key = '%s:%s' % (cls.__name__, sorted(
            k for k in kw if k not in ('max_k', 'boots_frac')))
        try:
            est = cls(**opts)
        except ValueError:
            continue
        except Exception as e:
            rec.fail('type:' + key, '%s raises %r' % (name, e))
            continue
        if when == 'init':
            rec.fail('accepted:' + key, '%s is accepted' % name)
            continue
        tags = 'AK' if fam in ('poisson', 'logistic') else 'A'
        if fam == 'logistic':
            tags = 'AC'
        for tag in tags:
            X, y = zoo.data(fam, tag)
            count = Counter(est)
            try:
                est.fit(*([X] if y is None else [X, y]))
                rec.fail('accepted:' + key, '%s fits data %s' % (name, tag))
            except ValueError as e:
                rec.check(not isinstance(e, NotFittedError)
                          and count.n == 0, 'late:' + key,
                          '%s rejected after %d inner fits'
                          % (name, count.n))
            except Exception as e:
                rec.fail('type:' + key, '%s raises %r in fit' % (name, e))
            rec.step()
    rec.sample(options=len(BAD_OPTIONS))


# ---------------------------------------------------------- invalid data
def bad_calls(name):
    """kind -> (method, arguments), each of which must raise ValueError."""
    fam = zoo.family(name)
    X, y = zoo.data(fam, 'A')
    n, p = X.shape

    def poke(v, A=X):
        A = A.astype(float).copy()
        A.flat[4] = v
        return A
    calls = {}

    def add(kind, *args, **kw):
        calls[kind] = ('fit', args, kw)
    if name.startswith('poisson-plain'):
        add('two responses', X, np.c_[y, y])
        add('short response', X, y[:-1])
        add('long response', X, np.r_[y, y[:2]])
        add('constant short', X, np.full(n - 3, 2.))
        add('constant single', X, np.full(1, 2.))
        add('two constant responses', X, np.full((n, 2), 2.))
        add('row response', X, y[None])
        add('one-dimensional data', X[:, 0], y)
    elif y is not None:
        add('two responses', X, np.c_[y, y])
        add('three responses', X, np.c_[y, y, y])
        add('two constant responses', X, np.full((n, 2), 1))
        add('short response', X, y[:-1])
        add('long response', X, np.r_[y, y[:2]])
        add('short constant response', X, np.full(n - 2, 1))
        add('short column', X, y[:-1, None])
        add('row response', X, y[None])
        add('cube response', X, y[:, None, None])
        add('nan data', poke(np.nan), y)
        add('infinite data', poke(np.inf), y)
        add('one-dimensional data', X[:, 0], y)
        add('three-dimensional data', X[:, :, None], y)
        add('no samples', X[:0], y[:0])
        add('no features', X[:, :0], y)
        if fam != 'logistic':
            add('nan response', X, poke(np.nan, y))
            add('infinite response', X, poke(np.inf, y))
    else:
        add('nan data', poke(np.nan))
        add('infinite data', poke(np.inf))
        add('one-dimensional data', X[:, 0])
        add('three-dimensional data', X[:, :, None])
        if fam == 'nmf':
            add('negative data', poke(-1e-3))
            add('all negative', -X)
            add('negative integers', -np.ones(X.shape, int))
    est = zoo.make(name, 0)
    if fam in ('linear', 'logistic', 'poisson') and getattr(
            est, 'standardize', False) and est.fit_intercept:
        for f in (sp.csr_matrix, sp.csc_matrix, sp.coo_matrix):
            add('centring %s' % f.__name__, f(X), y)
    if name in zoo.LINEAR_UOI:
        add('short groups', X, y, stratify=np.arange(n - 1) % 2)
        add('long groups', X, y, stratify=np.arange(n + 3) % 2)
    if name.startswith('masked'):
        add('short weights', X, y, sample_weight=np.ones(n - 2))
        add('long mask', X, y, coef_mask=np.ones(p + 2, bool))
    if name == 'uoi-cur':
        for ks in (0, 3, [1, 3], 'a', 1.5, -1, [0, 1], [2, 0], [1, -1],
                   [1.5, 2.], np.array([2, 0]), np.array([3, 1]), [1, 5, 2]):
            add('ranks %r' % (ks,), X, ks=ks)
        for cs in (0, -1, [1], 'a', [1, -1], [0, 2], [2, 0.], [1, 2, 3],
                   np.array([2, -1.]), ['a', 'b']):
            add('columns %r' % (cs,), X, cs=cs)
        add('short groups', X, stratify=np.arange(n - 1) % 2)
    return calls


def data_state(rs):
    return rs.get_state()


def fresh_result(name, state):
    fam = zoo.family(name)
    rs = np.random.RandomState(0)
    rs.set_state(state)
    est = zoo.make(name, rs)
    X, y = zoo.data(fam, 'B')
    zoo.fit(est, fam, X, y)
    return zoo.observe(est, fam, X.shape[1])


def unit_calls(rec, name, depth, first, fitted):
    """All sequences of rejected calls, then a valid fit."""
    fam = zoo.family(name)
    calls = bad_calls(name)
    cache = {}
    seqs = [()]
    for d in range(1, depth + 1):
        seqs += [s for s in itertools.product(sorted(calls), repeat=d)
                 if first is None or s[0] == first]
    for seq in seqs[1:] if first is not None or depth else seqs:
        if len(set(seq)) < len(seq) and len(seq) > 2:
            continue
        rec.state(name, seq, fitted)
        rec.trace()
        rs = np.random.RandomState(11)
        est = zoo.make(name, rs)
        if fitted:
            X, y = zoo.data(fam, 'A')
            zoo.fit(est, fam, X, y)
        ok = True
        for kind in seq:
            meth, args, kw = calls[kind]
            count = Counter(est)
            key = '%s:%s' % (name, kind)
            what = '%s: %s (after %s)' % (name, kind, seq)
            rec.step()
            if fam == 'cur':
                kw = dict({'c' if isinstance(est, CUR) else 'cs': 1.5},
                          **kw)
            try:
                getattr(est, meth)(*args, **kw)
                rec.fail('accepted:' + key, '%s: accepted' % what)
                ok = False
            except ValueError as e:
                ok &= rec.check(
                    not isinstance(e, NotFittedError), 'type:' + key,
                    '%s: %r' % (what, e))
                if name in zoo.LINEAR_UOI:
                    rec.check(count.n == 0, 'late:' + key,
                              '%s: rejected after %d inner fits'
                              % (what, count.n))
            except Exception as e:
                rec.fail('type:' + key, '%s: raises %r' % (what, e))
                ok = False
            for a in ('_selection_lm', '_estimation_lm', 'nmf', 'cluster'):
                inner = getattr(est, a, None)
                if inner is not None and 'fit' in vars(inner):
                    del inner.fit
        if not ok:
            continue
        if not fitted:
            # still not fitted
            before_fit(rec, name, est, 'rejected ', seq)
        st = rs.get_state()
        h = (st[1].tobytes(), st[2], st[3])
        if h not in cache:
            cache[h] = fresh_result(name, st)
        X, y = zoo.data(fam, 'B')
        rec.step()
        try:
            zoo.fit(est, fam, X, y)
            got = zoo.observe(est, fam, X.shape[1])
        except Exception as e:
            rec.fail('unusable:%s' % name, '%s: a valid fit after %s raises '
                     '%r' % (name, seq, e))
            continue
        d = zoo.differ(cache[h], got)
        rec.check(d is None, 'changed:%s' % name, '%s: a valid fit after %s '
                  'differs from that of a fresh object: %s' % (name, seq, d))
    rec.sample(config=name, kinds=sorted(calls))


ALL_METHODS = ('predict', 'predict_proba', 'predict_log_proba',
               'decision_function', 'predict_mean', 'transform',
               'inverse_transform', 'score')


def before_fit(rec, name, est, how='', seq=''):
    fam = zoo.family(name)
    X, y = zoo.data(fam, 'A')
    for m in ALL_METHODS:
        if not hasattr(type(est), m):
            continue
        if fam == 'cur' and m == 'inverse_transform':
            continue        # not implemented
        if fam in ('linear', 'poisson') and m in (
                'predict_proba', 'predict_log_proba', 'decision_function'):
            continue
        rec.state(name, m, how)
        rec.step()
        key = '%s:%s' % (name, m)
        try:
            getattr(est, m)(*([X, y] if m == 'score' else [X]))
            rec.fail('unfitted-accepted:' + key, '%s.%s before %sfit %s '
                     'answers' % (name, m, how, seq))
        except NotFittedError:
            pass
        except NotImplementedError:
            pass
        except Exception as e:
            rec.fail('unfitted-type:' + key, '%s.%s before %sfit %s raises '
                     '%r' % (name, m, how, seq, e))


def unit_unfitted(rec):
    for name in zoo.CONFIGS:
        for rs in (None, 0):
            before_fit(rec, name, zoo.make(name, rs))
            rec.trace()
    for cls in (UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic, UoI_Poisson,
                MaskedCoefLogisticRegression, Poisson):
        est = cls()
        fam = FAM.get(cls, 'poisson' if cls is Poisson else 'logistic')
        for name in zoo.CONFIGS:
            if zoo.family(name) == fam:
                before_fit(rec, name, est, 'default ')
                break
    rec.sample(configurations=len(zoo.CONFIGS), methods=ALL_METHODS)


def unit_used(rec):
    """A fitted model refuses data of another width, and stays as it is."""
    for name in zoo.CONFIGS:
        fam = zoo.family(name)
        if fam == 'cur':
            continue            # not documented
        X, y = zoo.data(fam, 'A')
        est = zoo.make(name, 0)
        zoo.fit(est, fam, X, y)
        p = X.shape[1]
        ref = zoo.observe(est, fam, p)
        for m in ALL_METHODS:
            if not hasattr(est, m) or m == 'score':
                continue
            if fam in ('linear', 'poisson') and m in (
                    'predict_proba', 'predict_log_proba',
                    'decision_function'):
                continue
            for kind, Z in (('wide', np.c_[X, X]), ('one more',
                                                    np.c_[X, X[:, :1]]),
                            ('narrow', X[:, :-1]), ('one', X[:, :1])):
                k = est.components_.shape[0] \
                    if m == 'inverse_transform' else p
                if Z.shape[1] == k:
                    continue
                rec.state(name, m, kind)
                rec.step()
                rec.trace()
                try:
                    getattr(est, m)(Z)
                    rec.fail('width-accepted:%s:%s' % (name, m), '%s.%s of '
                             '%s data' % (name, m, kind))
                except ValueError:
                    pass
                except Exception as e:
                    rec.fail('width-type:%s:%s' % (name, m), '%s.%s of %s '
                             'data: %r' % (name, m, kind, e))
        d = zoo.differ(ref, zoo.observe(est, fam, p))
        rec.check(d is None, 'width-changed:%s' % name, '%s: %s'
                  % (name, d))


DEEP = ('lasso-raw', 'logistic', 'poisson-noint', 'masked-l1',
        'poisson-plain', 'nmf')


def units(tier):
    logging.getLogger().setLevel(logging.ERROR)
    q = tier == 'quick'
    out = [('bad-options', unit_bad_options, ()),
           ('unfitted', unit_unfitted, ()), ('used', unit_used, ()),
           ('valid-plain', unit_valid_plain, ()),
           ('valid-cur', unit_valid_cur, ()),
           ('valid-nmf', unit_valid_nmf, ()),
           ('own-factorizer', unit_own_factorizer, ())]
    for cls in METRICS:
        for m in METRICS[cls]:
            out.append(('valid-%s-%s' % (cls.__name__, m),
                        unit_valid_linear, (cls, m)))
    for name in zoo.CONFIGS:
        for fitted in (False, True):
            f = '-fitted' if fitted else ''
            depth = (2 if name in DEEP else 1) if q else \
                (3 if name in DEEP else 2)
            if depth == 1:
                out.append(('calls-%s%s' % (name, f), unit_calls,
                            (name, 1, None, fitted)))
                continue
            for kind in sorted(bad_calls(name)):
                out.append(('calls-%s-%s%s' % (name, kind.replace(' ', '-'),
                                               f), unit_calls,
                            (name, depth, kind, fitted)))
    return out
