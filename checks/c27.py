"""C27: options mean the same however they are set, and they take effect."""
import copy
import itertools
import logging
import pickle

import numpy as np
from scipy.optimize import nnls
from sklearn.base import clone
from sklearn.cluster import DBSCAN
from sklearn.decomposition import NMF as skNMF
from sklearn.exceptions import NotFittedError
from sklearn.linear_model import LinearRegression
from sklearn.model_selection import train_test_split

from mc import zoo
from mc.stubs import QUIET
from pyuoi.decomposition import CUR, UoI_CUR, UoI_NMF
from pyuoi.decomposition.NMF import UoI_NMF_Base
from pyuoi.linear_model import (UoI_ElasticNet, UoI_L1Logistic, UoI_Lasso,
                                UoI_Poisson)
from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
from pyuoi.linear_model.poisson import Poisson

PROPERTY = 'C27'
TECHNIQUE = ('explicit-state exploration of all sequences of option-setting, '
             'cloning, copying, pickling, fitting and rejected operations on '
             'the real estimators up to a depth, with the option valuation as '
             'the model state, each compared with a freshly constructed '
             'estimator; exhaustive lattices of solver options judged by the '
             'accuracy they buy')
BOUNDS = {
    'quick': 'all sequences of 2 operations over 8 kinds for every option of '
             '10 estimator classes (100 options, 1-2 other values each); all '
             'ordered pairs of options; lattices of 4 tolerances and 3 '
             'iteration limits for 14 solvers; all deviations of at most 2 of '
             '12 factorizer and clusterer options',
    'thorough': 'all sequences of 3 operations; all triples of options'}
ASSUMPTIONS = ['options are set by the constructor, set_params, clone, '
               'deepcopy and pickle, not by assigning attributes',
               'communicators are not copied',
               'an iteration limit of one does not suffice for the data sets '
               'used, and a tolerance of one half does not give six digits']

LOUD = logging.getLogger('verif-other')
LOUD.addHandler(logging.NullHandler())
LOUD.propagate = False


def first_row(A, b):
    """A regressor of the user's."""
    return nnls(A, b)[0] * 2


def median(H, axis=0):
    return np.median(H, axis=axis)


LIN = dict(n_boots_sel=2, n_boots_est=2, selection_frac=.75,
           estimation_frac=.75, stability_selection=1., logger=QUIET)
LINALT = dict(n_boots_sel=[3], n_boots_est=[3], selection_frac=[.5],
              estimation_frac=[.5], stability_selection=[[1, 2], .5],
              fit_intercept=[False], standardize=[False], logger=[LOUD],
              estimation_target=['train', 'test'], max_iter=[1],
              random_state=[5])
# name -> (class, family, base options, other values of the options)
CLASSES = {
    'lasso': (UoI_Lasso, 'linear', dict(LIN, n_lambdas=3), dict(
        LINALT, n_lambdas=[5], estimation_score=['BIC', 'AICc'], eps=[.3],
        warm_start=[False], copy_X=[False], tol=[.5], solver=['pyc'])),
    'elastic': (UoI_ElasticNet, 'linear', dict(
        LIN, n_lambdas=3, alphas=np.array([.5])), dict(
        LINALT, n_lambdas=[5], estimation_score=['AIC'], eps=[.3],
        warm_start=[False], copy_X=[False], tol=[.5],
        alphas=[np.array([.2, 1.]), [.9]])),
    'logistic': (UoI_L1Logistic, 'logistic', dict(LIN, n_C=3), dict(
        LINALT, n_C=[4], estimation_score=['log', 'BIC'], eps=[.1],
        warm_start=[True], tol=[.5], multi_class=['multinomial'],
        shared_support=[False])),
    'poisson': (UoI_Poisson, 'poisson', dict(LIN, n_lambdas=3), dict(
        LINALT, n_lambdas=[4], estimation_score=['AIC', 'AICc'], eps=[.2],
        warm_start=[False], copy_X=[False], tol=[.5], solver=['cd'],
        alphas=[np.array([.5, 1.])])),
    'poisson-plain': (Poisson, 'poisson', dict(alpha=.05), dict(
        alpha=[.2], l1_ratio=[.5], fit_intercept=[False], standardize=[True],
        max_iter=[1], tol=[.5], warm_start=[True], solver=['cd'])),
    'masked': (MaskedCoefLogisticRegression, 'logistic', dict(C=2.), dict(
        C=[.3], penalty=['l1'], fit_intercept=[False], standardize=[True],
        class_weight=['balanced', {0: 1., 1: 3.}], warm_start=[True],
        multi_class=['multinomial'], max_iter=[1], tol=[.5])),
    'cur': (CUR, 'cur', dict(max_k=2), dict(
        max_k=[1], algorithm=['arpack'], n_iter=[1], tol=[.5],
        random_state=[5])),
    'uoi-cur': (UoI_CUR, 'cur', dict(
        n_boots=3, max_k=2, boots_frac=.7, stability_selection=2), dict(
        n_boots=[4], max_k=[1], boots_frac=[.5],
        stability_selection=[1, 3], algorithm=['arpack'], n_iter=[1],
        tol=[.5], random_state=[5])),
    'nmf': (UoI_NMF, 'nmf', dict(
        n_boots=3, ranks=[2, 3], nmf_max_iter=30, logger=QUIET), dict(
        n_boots=[4], ranks=[3, [2]], nmf_init=['nndsvda'], nmf_solver=['cd'],
        nmf_beta_loss=['frobenius'], nmf_tol=[.5], nmf_max_iter=[5],
        db_eps=[.05], db_min_samples=[3], db_metric=['cosine'],
        db_metric_params=[{}], db_algorithm=['brute'], db_leaf_size=[3],
        use_dissimilarity=[False], random_state=[5], logger=[LOUD],
        nmf=[skNMF(solver='cd', init='random', max_iter=20)],
        cluster=[DBSCAN(eps=1., min_samples=1)],
        nnreg=[LinearRegression(positive=True, fit_intercept=False),
               first_row], cons_meth=[median])),
    'nmf-base': (UoI_NMF_Base, 'nmf', dict(
        n_boots=3, ranks=[2, 3], logger=QUIET,
        nmf=skNMF(solver='cd', init='random', max_iter=20),
        cluster=DBSCAN(min_samples=1)), dict(
        n_boots=[4], ranks=[3, None],
        nmf=[skNMF(solver='mu', init='nndsvda', max_iter=20)],
        cluster=[DBSCAN(eps=1., min_samples=2), None],
        nnreg=[LinearRegression(positive=True, fit_intercept=False),
               first_row], cons_meth=[median], use_dissimilarity=[False],
        random_state=[5], logger=[LOUD])),
}
SEEDED = [n for n in CLASSES if n not in ('poisson-plain', 'masked')]
# values that no estimator takes
BAD = {'lasso': dict(estimation_score='nope'),
       'elastic': dict(estimation_target='nope'),
       'logistic': dict(estimation_score='r2'),
       'poisson': dict(solver='nope'), 'nmf': dict(ranks='three'),
       'nmf-base': dict(nmf=skNMF)}


def forbidden(name, opts):
    """Documented bad combinations."""
    if name == 'lasso':
        return opts.get('solver') == 'pyc' and \
            opts.get('fit_intercept') is False
    if name == 'nmf':
        return opts.get('nmf_solver') == 'cd' and \
            opts.get('nmf_beta_loss') != 'frobenius' and 'nmf' not in opts
    return False


def own(v):
    """A value of an option that shares nothing with any other object."""
    if isinstance(v, (logging.Logger, np.random.RandomState)) or callable(v):
        return v
    if hasattr(v, 'get_params'):
        return clone(v)
    return copy.deepcopy(v)


def build(name, opts):
    cls, _, base, _ = CLASSES[name]
    kw = dict(base)
    if name in SEEDED:
        kw['random_state'] = 7
    kw.update(opts)
    return cls(**{k: own(v) for k, v in kw.items()})


def values(name):
    cls, _, base, _ = CLASSES[name]
    kw = dict(base)
    if name in SEEDED:
        kw['random_state'] = 7
    return kw


def default(name, opt):
    """The value an option has in `build(name, {})`."""
    kw = values(name)
    if opt in kw:
        return kw[opt]
    import inspect
    return inspect.signature(CLASSES[name][0].__init__).parameters[opt].default


def same_value(a, b):
    if isinstance(a, np.random.RandomState) or \
            isinstance(b, np.random.RandomState):
        def st(v):
            if not isinstance(v, np.random.RandomState):
                v = np.random.RandomState(v)
            return v.get_state()
        x, y = st(a), st(b)
        return np.array_equal(x[1], y[1]) and x[2:] == y[2:]
    if hasattr(a, 'get_params') or hasattr(b, 'get_params'):
        if type(a) is not type(b):
            return False
        pa, pb = a.get_params(), b.get_params()
        # (the factorizer of an estimator is told its stream and rank)
        return all(same_value(pa[k], pb[k]) for k in pa
                   if k not in ('random_state', 'n_components'))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and np.array_equal(a, b)
    if type(a) is not type(b):
        return False
    return a is b or a == b


def outcome(est, fam, tag='A'):
    X, y = zoo.data(fam, tag)
    try:
        zoo.fit(est, fam, X, y)
        return ('fitted', zoo.observe(est, fam, X.shape[1]))
    except Exception as e:
        return ('raised', type(e).__name__)


class Refs(object):
    def __init__(self, name):
        self.name, self.memo = name, {}

    def get(self, opts):
        k = repr(sorted((o, repr(v)) for o, v in opts.items()))
        if k not in self.memo:
            self.memo[k] = outcome(build(self.name, opts),
                                   CLASSES[self.name][1])
        return self.memo[k]


OPS = ('set', 'back', 'clone', 'deepcopy', 'pickle', 'fit', 'unknown', 'bad')
COPIES = {'clone': clone, 'deepcopy': copy.deepcopy,
          'pickle': lambda e: pickle.loads(pickle.dumps(e))}


def reported(est, opts, name):
    """The first option that get_params reports wrongly."""
    got = est.get_params(deep=False)
    want = values(name)
    want.update(opts)
    for o, v in want.items():
        if o == 'random_state':
            continue
        if o not in got:
            return '%s is missing' % o
        if not same_value(got[o], v):
            return '%s is %r, not %r' % (o, got[o], v)
    return None


def play(rec, name, opt, alt, start, ops, refs):
    """One history: start with or without the other value, then the ops."""
    fam = CLASSES[name][1]
    opts = {opt: alt} if start else {}
    what = '%s=%r %s' % (opt, alt, (('given',) if start else ()) + ops)
    est = build(name, opts)
    fitted = False
    left = []
    for op in ops:
        rec.step()
        if op in ('set', 'back'):
            v = alt if op == 'set' else default(name, opt)
            ret = est.set_params(**{opt: own(v)})
            rec.check(ret is est, 'returns:%s' % name,
                      '%s: set_params returned %r' % (what, type(ret)))
            opts = {opt: alt} if op == 'set' else {}
        elif op in COPIES:
            new = COPIES[op](est)
            if op == 'clone' and fitted:
                fitted = False
            elif fitted:
                p = zoo.data(fam, 'B')[0].shape[1]
                d = zoo.differ(zoo.observe(est, fam, p),
                               zoo.observe(new, fam, p))
                rec.check(d is None, 'copied-fit:%s:%s' % (name, op),
                          '%s: the copy has other results: %s' % (what, d))
            left.append((est, dict(opts)))
            est = new
        elif op == 'fit':
            outcome(est, fam, 'B')
            fitted = hasattr(est, 'components_') or hasattr(est, 'coef_')
        else:
            kw = {'no_such_option': 1} if op == 'unknown' else \
                {k: own(v) for k, v in BAD[name].items()}
            try:
                est.set_params(**kw)
            except ValueError:
                pass
            else:
                rec.fail('accepted:%s' % name, '%s: %r was accepted'
                         % (what, kw))
        rec.state(name, opt, repr(alt), sorted(opts), op, fitted)
    d = reported(est, opts, name)
    rec.check(d is None, 'reported:%s:%s' % (name, opt),
              '%s: %s' % (what, d))
    for old, o in left:
        d = reported(old, o, name)
        rec.check(d is None, 'original:%s:%s' % (name, opt),
                  '%s: the copied estimator: %s' % (what, d))
    seed = opts.get('random_state', 7)
    if 'fit' in ops and name in SEEDED:
        est.set_params(random_state=seed)
    if 'warm_start' in opts and 'fit' in ops:
        # (a warm start from the other data set)
        return
    rec.trace()
    d = zoo.differ(list(outcome(est, fam)), list(refs.get(opts)))
    rec.check(d is None, 'differs:%s:%s' % (name, opt),
              '%s: fits differently from a new estimator: %s' % (what, d))
    if left and 'fit' not in ops:
        # copies share no random stream
        old, o = left[0]
        d = zoo.differ(list(outcome(old, fam)), list(refs.get(o)))
        rec.check(d is None, 'copy-shares:%s:%s' % (name, opt),
                  '%s: after using the copy the original fits differently: '
                  '%s' % (what, d))


def unit_routes(rec, name, opt, depth):
    refs = Refs(name)
    for alt in CLASSES[name][3][opt]:
        if forbidden(name, {opt: alt}):
            continue
        ops = [o for o in OPS if o != 'bad' or name in BAD]
        for n in range(depth + 1):
            for seq in itertools.product(ops, repeat=n):
                for start in (False, True):
                    play(rec, name, opt, alt, start, seq, refs)


def unit_pairs(rec, name, opt, r):
    """All combinations of the option with r others, in every order."""
    refs = Refs(name)
    alts = CLASSES[name][3]
    fam = CLASSES[name][1]
    for others in itertools.combinations(
            [o for o in alts if o != opt], r):
        if r > 1 and opt > min(others):
            continue
        opts = {o: alts[o][0] for o in (opt,) + others}
        if forbidden(name, opts):
            continue
        rec.trace()
        for how in ('one', 'each', 'clone'):
            est = build(name, {})
            rec.step()
            try:
                if how == 'one':
                    est.set_params(**{o: own(v) for o, v in opts.items()})
                elif how == 'each':
                    for o, v in opts.items():
                        est.set_params(**{o: own(v)})
                else:
                    est = clone(build(name, opts))
            except ValueError:
                if how != 'each' or not any(
                        forbidden(name, dict(list(opts.items())[:i]))
                        for i in range(1, len(opts))):
                    raise
                continue
            rec.state(name, sorted(opts), how)
            d = reported(est, opts, name)
            rec.check(d is None, 'reported-pair:%s' % name,
                      '%s (%s): %s' % (sorted(opts), how, d))
            d = zoo.differ(list(outcome(est, fam)), list(refs.get(opts)))
            rec.check(d is None, 'pair:%s:%s' % (name, how),
                      '%s: %s' % (opts, d))


def unit_nested(rec, name):
    """Options of the objects given are reachable through the estimator."""
    for opt, val in (('nmf__max_iter', 3), ('nmf__solver', 'mu'),
                     ('nmf__l1_ratio', .5), ('cluster__eps', 1.),
                     ('cluster__min_samples', 3)):
        for via in ('direct', 'clone', 'pickle'):
            kw = dict(nmf=skNMF(solver='cd', init='random', max_iter=20),
                      cluster=DBSCAN(min_samples=1))
            ref = {k: clone(v) for k, v in kw.items()}
            a, b = opt.split('__')
            ref[a].set_params(**{b: val})
            est = build(name, kw)
            if via != 'direct':
                est = COPIES[via](est)
            est.set_params(**{opt: val})
            rec.step()
            rec.trace()
            rec.state(name, opt, via)
            rec.check(est.get_params().get(opt) == val, 'nested-reported',
                      '%s=%r is reported as %r'
                      % (opt, val, est.get_params().get(opt)))
            d = zoo.differ(list(outcome(est, 'nmf')),
                           list(outcome(build(name, ref), 'nmf')))
            rec.check(d is None, 'nested:%s:%s' % (name, opt),
                      '%s (%s): %s' % (opt, via, d))


def unit_unfitted(rec, name):
    """A clone of a fitted estimator is not fitted."""
    _, fam, _, _ = CLASSES[name]
    for tag in 'AB':
        est = build(name, {})
        outcome(est, fam, tag)
        X, y = zoo.data(fam, tag)
        new = clone(est)
        rec.trace()
        for m in ('predict', 'transform'):
            if not hasattr(new, m):
                continue
            rec.step()
            try:
                getattr(new, m)(X)
            except NotFittedError:
                rec.state(name, tag, m)
            except Exception as e:
                rec.fail('clone-error:%s' % name, '%s: %r' % (m, e))
            else:
                rec.fail('clone-fitted:%s' % name, m)
        d = repr(est)
        rec.check(type(est).__name__ in d, 'repr:%s' % name, d)


# --------------------------------------------------------------- in effect

def hard_data(fam, n=40):
    """Correlated features of different weight: one sweep does not do."""
    g = np.random.RandomState(3)
    Z = g.randn(n, 4)
    X = np.c_[Z[:, 0], Z[:, 0] + .35 * Z[:, 1], Z[:, 0] - .4 * Z[:, 2],
              Z[:, 3]]
    eta = X.dot([1.5, -2., 1., .5])
    if fam == 'linear':
        return X, eta + .3 * g.randn(n) + 1.
    if fam == 'logistic':
        return X, (eta + 1.5 * g.randn(n) > .3).astype(int)
    if fam == 'classes':
        return X, np.digitize(eta + 1.5 * g.randn(n), [-.6, .8])
    return X, g.poisson(np.exp(.5 * eta + .4)).astype(float)


def violation(fam, X, y, coef, b, l1, l2, intercept):
    """Distance of (coef, b) from the optimality conditions of the mean loss
    plus l1 |coef| + l2/2 coef^2."""
    n = len(y)
    coef = np.atleast_2d(coef)
    eta = X.dot(coef.T) + b
    if fam == 'linear':
        r = eta[:, 0] - y
        r = r[:, None]
    elif fam == 'poisson':
        r = (np.exp(eta[:, 0]) - y)[:, None]
    elif fam == 'logistic':
        r = (1 / (1 + np.exp(-eta[:, 0])) - y)[:, None]
    else:
        e = np.exp(eta - eta.max(1, keepdims=True))
        r = e / e.sum(1, keepdims=True) - (y[:, None] == np.unique(y))
    g = r.T.dot(X) / n + l2 * coef
    v = np.where(coef != 0, abs(g + l1 * np.sign(coef)),
                 np.maximum(abs(g) - l1, 0)).max()
    if intercept:
        v = max(v, abs(r.mean(0)).max())
    return v


def stage_selection(cls, fam, kw, tol, max_iter, fit_intercept):
    """Violations of the optimality conditions along the selection sweep."""
    X, y = hard_data(fam)
    est = cls(n_boots_sel=1, n_boots_est=1, selection_frac=.9,
              estimation_frac=.9, standardize=False, random_state=1,
              fit_intercept=fit_intercept, logger=QUIET, tol=tol,
              max_iter=max_iter, **kw)
    est.fit(X, y)
    regs = est.reg_params_
    out = []
    if kw.get('solver') == 'pyc':
        coefs = est.uoi_selection_sweep(X, y, regs)
        Xc = X - X.mean(0)
        for r, c in list(zip(regs, coefs))[1:]:
            out.append(violation('linear', Xc, y - y.mean(), c, 0.,
                                 r['alpha'], 0., False))
        return max(out)
    coefs = est.uoi_selection_sweep(X, y, regs)
    for r, c in list(zip(regs, coefs))[1:]:
        if 'C' in r:
            l1, l2 = 1. / r['C'], 0.
        else:
            ratio = r.get('l1_ratio', 1.)
            l1, l2 = r['alpha'] * ratio, r['alpha'] * (1 - ratio)
        c = c.reshape(3 if fam == 'classes' else 1, -1)
        out.append(profile(fam, X, y, c, l1, l2, fit_intercept))
    return max(out)


def profile(fam, X, y, coef, l1, l2, fit_intercept):
    """Violation at the best intercept for the coefficients."""
    if not fit_intercept:
        return violation(fam, X, y, coef, 0., l1, l2, False)
    eta = X.dot(coef.T)
    if fam == 'linear':
        b = np.mean(y - eta[:, 0])
    elif fam == 'poisson':
        b = np.log(y.mean() / np.exp(eta[:, 0]).mean())
    else:
        b = np.zeros(eta.shape[1])
        for _ in range(200):
            # Newton steps on the intercepts alone
            e = eta + b
            if fam == 'logistic':
                p = 1 / (1 + np.exp(-e))
                b = b - (p.mean(0) - y.mean()) / (p * (1 - p)).mean(0)
            else:
                p = np.exp(e - e.max(1, keepdims=True))
                p /= p.sum(1, keepdims=True)
                g = p.mean(0) - [(y == c).mean() for c in np.unique(y)]
                H = np.diag(p.mean(0)) - p.T.dot(p) / len(y)
                b = b - np.linalg.lstsq(H, g, rcond=None)[0]
    return violation(fam, X, y, coef, b, l1, l2, False)


def stage_estimation(cls, fam, kw, tol, max_iter, fit_intercept):
    """Violation of the optimality conditions by the recorded estimates."""
    X, y = hard_data(fam)
    rs = np.random.RandomState(1)
    est = cls(n_boots_sel=1, n_boots_est=2, selection_frac=.9,
              estimation_frac=.9, standardize=False, random_state=rs,
              fit_intercept=fit_intercept, logger=QUIET, tol=tol,
              max_iter=max_iter, **kw)

    def sweep(X, y, regs):
        # two supports: all features, and all but the last
        out = np.ones((len(regs), est.get_n_coef(X, y)))
        out[0, 3::4] = 0.
        return out
    est.uoi_selection_sweep = sweep
    est.fit(X, y)
    rs = np.random.RandomState(1)
    idx = np.arange(len(y))
    train_test_split(idx, test_size=1 - .9, random_state=rs)
    out = []
    for k in range(2):
        tr = train_test_split(idx, test_size=1 - .9, random_state=rs)[0]
        for s, e in zip(est.supports_, est.estimates_[k]):
            if not s.any():
                continue
            c = e.reshape(3 if fam == 'classes' else 1, -1)
            cols = s if s.ndim == 1 else s.any(0)
            out.append(profile(fam, X[tr][:, cols], y[tr], c[:, cols],
                               0., 0., fit_intercept))
    return max(out)


def plain_poisson(solver, alpha, ratio):
    def run(tol, max_iter, fit_intercept):
        X, y = hard_data('poisson')
        m = Poisson(alpha=alpha, l1_ratio=ratio, solver=solver, tol=tol,
                    max_iter=max_iter, fit_intercept=fit_intercept)
        m.fit(X, y)
        return violation('poisson', X, y, m.coef_, m.intercept_,
                         alpha * ratio, alpha * (1 - ratio), fit_intercept)
    return run


def plain_masked(fam, penalty, C):
    def run(tol, max_iter, fit_intercept):
        X, y = hard_data(fam)
        m = MaskedCoefLogisticRegression(
            penalty=penalty, C=C, tol=tol, max_iter=max_iter,
            fit_intercept=fit_intercept)
        m.fit(X, y)
        l1, l2 = (1. / C, 0.) if penalty == 'l1' else (0., 1. / C)
        return violation(fam, X, y, m.coef_, m.intercept_, l1, l2,
                         fit_intercept)
    return run


def staged(stage, cls, fam, **kw):
    def run(tol, max_iter, fit_intercept):
        return stage(cls, fam, kw, tol, max_iter, fit_intercept)
    return run


SEL, EST = stage_selection, stage_estimation
# name -> (function, tight tolerance, accuracy it buys)
SOLVERS = {
    'lasso-cd': (staged(SEL, UoI_Lasso, 'linear', n_lambdas=4), 1e-12, 1e-6),
    'lasso-pyc': (staged(SEL, UoI_Lasso, 'linear', n_lambdas=4,
                         solver='pyc'), 1e-12, 1e-5),
    'elastic': (staged(SEL, UoI_ElasticNet, 'linear', n_lambdas=4,
                       alphas=np.array([.5, .9])), 1e-12, 1e-6),
    'logistic-sel': (staged(SEL, UoI_L1Logistic, 'logistic', n_C=4,
                            eps=1e-2), 1e-9, 1e-5),
    'classes-sel': (staged(SEL, UoI_L1Logistic, 'classes', n_C=4, eps=1e-2),
                    1e-9, 1e-5),
    'poisson-sel': (staged(SEL, UoI_Poisson, 'poisson', n_lambdas=4), 1e-9,
                    1e-5),
    'poisson-cd-sel': (staged(SEL, UoI_Poisson, 'poisson', n_lambdas=4,
                              solver='cd', alphas=np.array([.9])), 1e-10,
                       1e-5),
    'logistic-est': (staged(EST, UoI_L1Logistic, 'logistic', n_C=3,
                            eps=1e-2), 1e-9, 1e-4),
    'classes-est': (staged(EST, UoI_L1Logistic, 'classes', n_C=3, eps=1e-2),
                    1e-9, 1e-4),
    'poisson-est': (staged(EST, UoI_Poisson, 'poisson', n_lambdas=3), 1e-9,
                    1e-5),
    'poisson-cd-est': (staged(EST, UoI_Poisson, 'poisson', n_lambdas=3,
                              solver='cd'), 1e-10, 1e-5),
    'plain-poisson': (plain_poisson('lbfgs', .05, 1.), 1e-9, 1e-5),
    'plain-poisson-cd': (plain_poisson('cd', .05, .5), 1e-10, 1e-5),
    'plain-l1': (plain_masked('logistic', 'l1', 20.), 1e-9, 1e-5),
    'plain-l2': (plain_masked('classes', 'l2', 20.), 1e-9, 1e-4),
}


def unit_effect(rec, name, fit_intercept):
    run, tight, acc = SOLVERS[name]
    tols = (.5, 1e-2, 1e-4, tight)
    limits = (1, 3, 100000)
    v = {}
    for tol in tols:
        for m in limits:
            v[tol, m] = run(tol, m, fit_intercept)
            rec.step()
            rec.trace()
            rec.state(name, fit_intercept, tol, m, '%.3g' % v[tol, m])
    rec.sample(solver=name, intercept=fit_intercept,
               violations={'%g/%d' % k: float(x) for k, x in v.items()})
    best = v[tight, 100000]
    rec.check(best <= acc, 'inaccurate:%s' % name,
              'tolerance %g and 100000 iterations leave the optimality '
              'conditions violated by %.3g (%s)'
              % (tight, best, 'intercept' if fit_intercept else 'none'))
    floor = max(1e-4, 20 * best)
    rec.check(v[tight, 1] > floor, 'limit-ignored:%s' % name,
              'one iteration gives a violation of %.3g, no limit %.3g'
              % (v[tight, 1], best))
    rec.check(v[.5, 100000] > floor, 'tolerance-ignored:%s' % name,
              'a tolerance of .5 gives a violation of %.3g, %g one of %.3g'
              % (v[.5, 100000], tight, best))


def slow_spectrum():
    g = np.random.RandomState(0)
    U, _ = np.linalg.qr(g.randn(60, 60))
    V, _ = np.linalg.qr(g.randn(60, 60))
    return U.dot(np.diag(np.linspace(2, 1, 60))).dot(V.T)


def unit_cur_effect(rec, uoi):
    """The singular vectors are as exact as the options ask for."""
    X = slow_spectrum()

    def columns(seed, **kw):
        rec.step()
        if uoi:
            m = UoI_CUR(n_boots=3, boots_frac=.7, max_k=3,
                        stability_selection=1, random_state=seed, **kw)
            m.fit(X, cs=10)
        else:
            m = CUR(max_k=3, random_state=seed, **kw)
            m.fit(X, c=10)
        return tuple(m.column_indices_)
    seeds = range(8)
    exact = [columns(s, algorithm='arpack') for s in seeds]
    for label, kw, want in (
            ('n_iter', dict(n_iter=0), False),
            ('n_iter', dict(n_iter=3), False),
            ('n_iter', dict(n_iter=100), True),
            ('tol', dict(algorithm='arpack', tol=.5), False),
            ('tol', dict(algorithm='arpack', tol=1e-10), True)):
        got = [columns(s, **kw) for s in seeds]
        rec.trace()
        rec.state(uoi, label, sorted(kw.items()), got)
        rec.check((got == exact) == want, 'cur-ignored:%s' % label,
                  '%s selects %s, the exact singular vectors %s'
                  % (kw, got, exact))


def unit_nmf_options(rec, opt):
    """UoI_NMF with options of the factorizer and the clusterer is the base
    class with objects that have these options."""
    alts = dict(nmf_init='nndsvda', nmf_solver='cd',
                nmf_beta_loss='frobenius', nmf_tol=.3, nmf_max_iter=4,
                db_eps=.02, db_min_samples=2, db_metric='cosine',
                db_metric_params=None, db_algorithm='brute', db_leaf_size=2,
                use_dissimilarity=False)
    base = dict(nmf_init='random', nmf_solver='mu',
                nmf_beta_loss='kullback-leibler', nmf_tol=1e-4,
                nmf_max_iter=40, db_eps=.5, db_min_samples=None,
                db_metric='euclidean', db_metric_params=None,
                db_algorithm='auto', db_leaf_size=30, use_dissimilarity=True)
    for other in alts:
        for n_boots in (2, 5):
            opts = dict(base)
            opts[opt] = alts[opt]
            opts[other] = alts[other]
            if opts['nmf_solver'] == 'cd':
                opts['nmf_beta_loss'] = 'frobenius'
            est = UoI_NMF(n_boots=n_boots, ranks=[2, 3], random_state=3,
                          logger=QUIET, **opts)
            nmf = skNMF(**{k[4:]: v for k, v in opts.items()
                           if k.startswith('nmf_')})
            db = {k[3:]: v for k, v in opts.items() if k.startswith('db_')}
            if db['min_samples'] is None:
                db['min_samples'] = max(n_boots // 2, 1)
            ref = UoI_NMF_Base(n_boots=n_boots, ranks=[2, 3], random_state=3,
                               logger=QUIET, nmf=nmf, cluster=DBSCAN(**db),
                               use_dissimilarity=opts['use_dissimilarity'])
            rec.step()
            rec.trace()
            rec.state(opt, other, n_boots)
            d = zoo.differ(list(outcome(est, 'nmf')),
                           list(outcome(ref, 'nmf')))
            rec.check(d is None, 'nmf-options:%s' % opt,
                      '%s and %s with %d bootstraps: %s'
                      % (opt, other, n_boots, d))


def units(tier):
    big = tier == 'thorough'
    u = []
    for name in CLASSES:
        for opt in CLASSES[name][3]:
            u.append(('routes-%s-%s' % (name, opt), unit_routes,
                      (name, opt, 3 if big else 2)))
            u.append(('pairs-%s-%s' % (name, opt), unit_pairs,
                      (name, opt, 1)))
            if big:
                u.append(('triples-%s-%s' % (name, opt), unit_pairs,
                          (name, opt, 2)))
        u.append(('unfitted-' + name, unit_unfitted, (name,)))
    for name in ('nmf', 'nmf-base'):
        u.append(('nested-' + name, unit_nested, (name,)))
    for name in SOLVERS:
        for b in (True, False):
            if name == 'lasso-pyc' and not b:
                continue
            u.append(('effect-%s-%s' % (name, b), unit_effect, (name, b)))
    for b in (False, True):
        u.append(('cur-effect-%s' % b, unit_cur_effect, (b,)))
    for opt in ('nmf_init', 'nmf_solver', 'nmf_beta_loss', 'nmf_tol',
                'nmf_max_iter', 'db_eps', 'db_min_samples', 'db_metric',
                'db_metric_params', 'db_algorithm', 'db_leaf_size',
                'use_dissimilarity'):
        u.append(('nmf-options-%s' % opt, unit_nmf_options, (opt,)))
    return u
