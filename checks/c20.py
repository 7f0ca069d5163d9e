"""C20: the regularization sweep covers the documented grid."""
import copy
import itertools

import numpy as np
from sklearn.base import clone

from checks.c13 import residual as logistic_residual
from checks.c14 import residual as poisson_residual
from mc import refmodel as ref
from mc.dist import on_ranks
from mc.stubs import QUIET
from pyuoi.linear_model import (UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic,
                                UoI_Poisson)

PROPERTY = 'C20'
TECHNIQUE = ('exhaustive enumeration of small designs, responses and grid '
             'options through the real grids and sweeps; every recorded '
             'selection fit is decided by the optimality conditions of its '
             'own setting')
BOUNDS = {
    'quick': 'every 4x2 design over 3 values x 3 responses x intercept for '
             'the 4 families (ratios, sizes 1-5, path lengths in rotation); '
             'full fits: 15 option combinations per family on 3 data sets, '
             'every (bootstrap, setting) accounted for over 1-7 ranks; '
             'every order and subset of 4 settings through the sweep of every family and '
             'both lasso solvers',
    'thorough': 'as quick with 5x2 designs and every option combination on '
                '4 data sets, orders of 5 settings'}
ASSUMPTIONS = ['data on which no positive strength is needed (no feature '
               'correlates with the response) has no grid',
               'optimality is decided to the tolerance of the solvers run '
               'at tight settings',
               'a single strength may be either end of the path']
LIN = (UoI_Lasso, UoI_ElasticNet)


def strongest(fam, X, y, ratio, fi):
    """Smallest strength without any feature (1/C for logistic)."""
    n = len(y)
    if fam == 'linear':
        if fi:
            X, y = X - X.mean(0), y - y.mean()
        return np.abs(X.T.dot(y)).max() / n / ratio
    if fam == 'poisson':
        return np.abs(X.T.dot(y - (y.mean() if fi else 1.))).max() / n / ratio
    K = int(y.max()) + 1
    if K == 2 and ratio == 1:
        p = y.mean() if fi else .5
        return np.abs(X.T.dot(y - p)).max() / n
    Y = np.eye(K)[y]
    P = Y.mean(0) if fi else np.full(K, 1. / K)
    return np.abs(X.T.dot(Y - P)).max() / n


def check_grid(rec, fam, params, X, y, ratios, n_grid, eps, fi, key, msg):
    """The list of settings against the documented grid; True if usable."""
    lam = {}
    for p in params:
        r = p.get('l1_ratio', 1.) if fam != 'logistic' else ratios[0]
        lam.setdefault(float(r), []).append(
            1. / p['C'] if fam == 'logistic' else p['alpha'])
    ok = rec.check(len(params) == len(ratios) * n_grid and
                   sorted(lam) == sorted(float(r) for r in ratios) and
                   all(len(v) == n_grid for v in lam.values()),
                   'size:%s' % key, '%s: %d settings %s'
                   % (msg, len(params), params[:6]))
    for r, v in lam.items():
        top = strongest(fam, X, y, r, fi)
        want = top * np.logspace(0, np.log10(eps), n_grid) \
            if n_grid > 1 else [top]
        good = np.allclose(v, want, rtol=1e-7) or (
            n_grid == 1 and np.allclose(v, eps * top, rtol=1e-7))
        ok &= rec.check(good, 'grid:%s' % key, '%s: ratio %s strengths %s '
                        'instead of %s' % (msg, r, v, want))
    return ok


def responses(fam, n):
    if fam == 'linear':
        return [np.array(v, float)[:n] for v in
                ([1, -1, 2, 0, .5], [3, 3, 0, 1, 7], [0, 0, 0, 5, 0])]
    if fam == 'poisson':
        return [np.array(v, float)[:n] for v in
                ([0, 1, 2, 0, 5], [3, 3, 0, 1, 1], [1, 1, 1, 5, 40])]
    return [np.array(v)[:n] for v in
            ([0, 1, 1, 0, 1], [0, 1, 2, 2, 0], [1, 1, 0, 1, 1])]


def unit_lattice(rec, fam, fi, n, head):
    vals = (-1., 0., 2.)
    grids = itertools.cycle([(n_g, e) for n_g in (4, 1, 2, 3, 5)
                             for e in (1e-3, .1, 1e-5, .5)])
    ratio_sets = itertools.cycle([(1.,), (.5,), (.25, 1.), (.1, .5, .9),
                                  (.02, .6)])
    for tail in itertools.product(vals, repeat=2 * n - len(head)):
        X = np.array(head + tail).reshape(n, 2)
        for y in responses(fam, n):
            n_grid, eps = next(grids)
            ratios = next(ratio_sets)
            if fam == 'logistic':
                ratios = (1.,) if y.max() == 1 else (2.,)
            if strongest(fam, X, y, ratios[0], fi) < 1e-12:
                rec.note('no-grid')
                continue
            kw = dict(fit_intercept=fi, eps=eps, logger=QUIET)
            jobs = []
            if fam == 'linear':
                jobs = [(UoI_Lasso, (1.,), dict(n_lambdas=n_grid)),
                        (UoI_ElasticNet, ratios, dict(
                            n_lambdas=n_grid, alphas=np.array(ratios)))]
            elif fam == 'poisson':
                jobs = [(UoI_Poisson, ratios, dict(
                    n_lambdas=n_grid, alphas=np.array(ratios)))]
            else:
                jobs = [(UoI_L1Logistic, ratios, dict(n_C=n_grid))]
            for cls, rt, extra in jobs:
                m = cls(**dict(kw, **extra))
                m.output_dim = int(y.max()) + 1 \
                    if fam == 'logistic' and y.max() > 1 else 1
                Xc, yc = X.copy(), y.copy()
                if fam == 'linear' and not fi and cls is UoI_Lasso:
                    pass
                params = m.get_reg_params(Xc, yc)
                rec.step()
                rec.trace()
                check_grid(rec, fam, params, X, y, rt, n_grid, eps, fi,
                           'lattice-%s' % cls.__name__,
                           'design %s response %s, intercept %s'
                           % (X.tolist(), y.tolist(), fi))
        rec.state(fam, fi, X)
    rec.sample(family=fam, design=X, response=y, settings=str(params[:2]))


class Spy(object):
    """Wraps a selection model and records what each fit was about."""

    def __init__(self, inner):
        object.__setattr__(self, '_inner', inner)
        object.__setattr__(self, 'fits', [])

    def fit(self, X, y, *a, **k):
        self._inner.fit(X, y, *a, **k)
        v = self._inner
        self.fits.append(dict(
            X=np.array(X, copy=True), y=np.array(y, copy=True),
            params={q: np.copy(getattr(v, q)) for q in
                    ('alpha', 'l1_ratio', 'C', 'alphas') if hasattr(v, q)},
            coef=np.array(v.coef_, copy=True),
            intercept=np.array(v.intercept_, copy=True)))
        return self

    def __getattr__(self, name):
        if name in ('_inner', 'fits'):
            raise AttributeError(name)
        return getattr(self._inner, name)

    def __sklearn_clone__(self):
        return self._twin(clone(self._inner))

    def __deepcopy__(self, memo):
        return self._twin(copy.deepcopy(self._inner, memo))

    def _twin(self, inner):
        new = type(self)(inner)
        object.__setattr__(new, 'fits', self.fits)
        return new

    def __setattr__(self, name, value):
        setattr(self._inner, name, value)

    def __delattr__(self, name):
        delattr(self._inner, name)


def expand(fits):
    """One record per setting, also for a solver of whole paths."""
    out = []
    for f in fits:
        if 'alphas' in f['params']:
            a = np.ravel(f['params']['alphas'])
            for j, v in enumerate(a):
                out.append(dict(f, params=dict(alpha=v), coef=f['coef'][j],
                                intercept=f['intercept'][j]))
        else:
            out.append(f)
    return out


def lasso_residual(X, y, c, alpha, ratio, fi):
    n = len(y)
    if fi:
        X, y = X - X.mean(0), y - y.mean()
    g = X.T.dot(X.dot(c) - y) / n + alpha * (1 - ratio) * c
    lam = alpha * ratio
    v = np.where(c != 0, np.abs(g + lam * np.sign(c)),
                 np.maximum(np.abs(g) - lam, 0))
    return v.max(initial=0.)


def optimal(m, f, coef=None):
    """Violation of the optimality conditions of a recorded fit."""
    X, y, pr = f['X'], f['y'], f['params']
    fi = m.fit_intercept
    c = np.asarray(f['coef'] if coef is None else coef, float)
    b = np.asarray(f['intercept'], float)
    if isinstance(m, LIN):
        c = np.ravel(c)
        return lasso_residual(X, y, c, float(pr['alpha']),
                              float(pr.get('l1_ratio', 1.)), fi) \
            / (1e-3 + np.abs(y).max() * np.abs(X).max())
    if isinstance(m, UoI_Poisson):
        c = np.ravel(c)
        b = float(np.ravel(b)[0])
        if np.unique(y).size == 1:
            return float(np.abs(c).max(initial=0.))
        if m._selection_lm.standardize:
            mu = X.mean(0) if fi else np.zeros(X.shape[1])
            sd = X.std(0)
            sd[sd == 0] = 1.
            X, c, b = (X - mu) / sd, c * sd, b + c.dot(mu)
        return poisson_residual(X, y, c, b, float(pr['alpha']),
                                float(pr['l1_ratio']), fi, None)
    c = np.atleast_2d(c)
    return logistic_residual(X, y, c, np.atleast_1d(b), 'l1', float(pr['C']),
                             np.ones(c.shape), fi, None, c.shape[0])


def configs(fam, big):
    out = []
    std = [(s, f) for s in (True, False) for f in (True, False)]
    if fam == 'linear':
        for s, f in std:
            for solver in ('cd', 'pyc') if f else ('cd',):
                out.append((UoI_Lasso, dict(
                    standardize=s, fit_intercept=f, solver=solver, tol=1e-10,
                    max_iter=200000), [1.]))
            out.append((UoI_ElasticNet, dict(
                standardize=s, fit_intercept=f, tol=1e-10, max_iter=200000,
                alphas=np.array([.03, .9])), [.03, .9]))
            out.append((UoI_ElasticNet, dict(
                standardize=s, fit_intercept=f, tol=1e-10, max_iter=200000,
                warm_start=False, alphas=np.array([.6])), [.6]))
    elif fam == 'poisson':
        for s, f in std:
            for solver in ('lbfgs', 'cd'):
                out.append((UoI_Poisson, dict(
                    standardize=s, fit_intercept=f, solver=solver, tol=1e-9,
                    max_iter=5000, alphas=np.array([.4, 1.])), [.4, 1.]))
            out.append((UoI_Poisson, dict(
                standardize=s, fit_intercept=f, tol=1e-9, max_iter=5000,
                warm_start=False), [1.]))
    else:
        for s, f in std:
            for kind in ('binary', 'multi', 'forced'):
                kw = dict(standardize=s, fit_intercept=f, tol=1e-7, _k=kind)
                if kind == 'forced':
                    kw['multi_class'] = 'multinomial'
                out.append((UoI_L1Logistic, kw, [2.] if kind != 'binary'
                            else [1.]))
            out.append((UoI_L1Logistic, dict(
                standardize=s, fit_intercept=f, tol=1e-7, _k='binary',
                warm_start=True), [1.]))
    return out


TOL = {'linear': 1e-5, 'poisson': 1e-4, 'logistic': 1e-3}


def unit_fit(rec, fam, ci, d, n_grid, eps, big, sizes=(1,)):
    for size in sizes:
        one_fit(rec, fam, ci, d, n_grid, eps, big, size)


def one_fit(rec, fam, ci, d, n_grid, eps, big, ranks):
    cls, kw, ratios = configs(fam, big)[ci]
    kw = dict(kw)
    kind = kw.pop('_k', fam)
    X, y = ref.dataset(d, 'binary' if kind == 'forced' else kind)
    size = dict(n_C=n_grid) if fam == 'logistic' else dict(n_lambdas=n_grid)
    B = 3

    def body(comm, rank):
        m = cls(n_boots_sel=B, n_boots_est=2, stability_selection=[1, 2, 3],
                selection_frac=.75, estimation_frac=.75, random_state=5,
                eps=eps, logger=QUIET, comm=comm, **dict(kw, **size))
        spy = Spy(m._selection_lm)
        m._selection_lm = spy
        m.fit(X.copy(), y.copy())
        return m, spy
    got = on_ranks(rec, ranks, body)
    if got is None:
        return
    m = got[0][0]
    msg = '%s %s on %s, %d ranks' % (cls.__name__, kw, d, ranks)
    rec.step()
    rec.trace()
    Xs, ys = ref.scaled(m, X, y)
    if not check_grid(rec, fam, m.reg_params_, Xs, ys, ratios, n_grid, eps,
                      m.fit_intercept, 'fit-%s' % cls.__name__, msg):
        return
    rec.check(m.n_reg_params_ == n_grid * len(ratios), 'count',
              '%s: n_reg_params_ %s' % (msg, m.n_reg_params_))
    fits = expand([f for _, spy in got for f in spy.fits])
    if not fits:
        rec.note('selection-model-not-used')
        return
    # every bootstrap at every setting exactly once
    settings = []
    for p in m.reg_params_:
        settings.append(tuple(float(p.get(q, 1.)) for q in
                              ('alpha', 'l1_ratio', 'C')))
    done = {}
    for f in fits:
        rows = ref.match_rows(f['X'], Xs)
        if not rec.check(rows is not None and len(set(rows)) == len(rows) and
                         np.allclose(f['y'], ys[rows]), 'rows',
                         '%s: a selection fit saw other data' % msg):
            return
        if fam == 'logistic':
            s = (1., 1., float(f['params']['C']))
        elif cls is UoI_Lasso:
            s = (float(f['params']['alpha']), 1., 1.)
        else:
            s = (float(f['params']['alpha']), float(f['params']['l1_ratio']),
                 1.)
        near = [i for i, t in enumerate(settings)
                if np.allclose(s, t, rtol=1e-10)]
        if not rec.check(len(near) == 1, 'setting', '%s: a fit at %s, not a '
                         'setting of the grid' % (msg, s)):
            return
        done.setdefault(tuple(sorted(rows)), {}).setdefault(
            near[0], []).append(f)
        v = optimal(m, f)
        rec.step()
        rec.state(fam, ci, d, ranks, near[0], np.ravel(f['coef']) != 0)
        rec.check(v <= TOL[fam], 'optimal:%s' % cls.__name__,
                  '%s: setting %s violates optimality by %g at %s'
                  % (msg, s, v, f['coef']))
    if not rec.check(len(done) == B and all(
        sorted(v) == list(range(len(settings))) and
        all(len(w) == 1 for w in v.values()) for v in done.values()),
        'coverage', '%s: fits per bootstrap and setting: %s'
        % (msg, [{i: len(w) for i, w in v.items()} for v in done.values()])):
        return
    # the stored coefficients are those of the setting: they give supports
    want = set()
    for s in range(len(settings)):
        nz = sum((np.ravel(v[s][0]['coef']) != 0).astype(int)
                 for v in done.values() if s in v)
        for t in (1, 2, 3):
            sel = nz >= t
            if fam == 'logistic' and m.output_dim > 1:
                sel = sel.reshape(m.output_dim, -1).any(0)
            want.add(tuple(sel.astype(int).tolist()))
    got = {tuple(np.asarray(s).astype(int).tolist()) for s in m.supports_}
    rec.check(got == want, 'supports', '%s: supports %s instead of %s'
              % (msg, sorted(got), sorted(want)))
    # the first setting selects nothing on the data itself
    rec.sample(model=msg, settings=str(m.reg_params_[:2]),
               supports=sorted(got))


def unit_first(rec, fam, ci, d, big):
    """At the first strength nothing is selected, just below it something."""
    cls, kw, ratios = configs(fam, big)[ci]
    kw = dict(kw)
    kind = kw.pop('_k', fam)
    X, y = ref.dataset(d, 'binary' if kind == 'forced' else kind)
    size = dict(n_C=2) if fam == 'logistic' else dict(n_lambdas=2)
    m = cls(n_boots_sel=2, n_boots_est=2, random_state=5, logger=QUIET,
            stability_selection=[1], selection_frac=.75, estimation_frac=.75,
            **dict(kw, **size))
    m.fit(X.copy(), y.copy())
    Xs, ys = ref.scaled(m, X, y)
    for p in m.reg_params_[::2]:
        for f, empty in ((1.02, True), (.93, False)):
            q = dict(p)
            if fam == 'logistic':
                q['C'] = q['C'] / f
            else:
                q['alpha'] = q['alpha'] * f
            c = m.uoi_selection_sweep(Xs, ys, [q])
            rec.step()
            rec.trace()
            rec.state('first', fam, ci, d, f)
            rec.check((not np.any(c)) == empty, 'first-setting:%s'
                      % cls.__name__, '%s %s: strength %s x the first one '
                      'gives %s' % (cls.__name__, kw, f, c))


def unit_sweep(rec, fam, ci, d, k, big):
    """Every order and subset of settings: each row is its own setting's."""
    cls, kw, ratios = configs(fam, big)[ci]
    kw = dict(kw)
    kind = kw.pop('_k', fam)
    X, y = ref.dataset(d, 'binary' if kind == 'forced' else kind)
    size = dict(n_C=k) if fam == 'logistic' else dict(n_lambdas=k)
    m = cls(n_boots_sel=2, n_boots_est=2, random_state=5, logger=QUIET,
            stability_selection=[1], selection_frac=.75, estimation_frac=.75,
            eps=1e-2, **dict(kw, **size))
    m.fit(X.copy(), y.copy())
    Xs, ys = ref.scaled(m, X, y)
    params = m.reg_params_[:k]
    base = {}
    path = getattr(m, 'solver', '') == 'pyc'
    for r in range(1, k + 1):
        for order in itertools.permutations(range(k), r):
            if path and list(order) != sorted(order):
                continue        # solves decreasing paths only
            C = m.uoi_selection_sweep(Xs, ys, [params[i] for i in order])
            rec.step()
            rec.trace()
            rec.state('sweep', fam, ci, d, order)
            C = np.asarray(C).reshape(r, -1)
            for i, c in zip(order, C):
                f = dict(X=Xs, y=ys, params=params[i], coef=c, intercept=0.)
                if isinstance(m, LIN):
                    v = optimal(m, f)
                    rec.check(v <= TOL[fam], 'sweep:%s' % cls.__name__,
                              '%s %s: order %s, coefficients %s violate '
                              'optimality of setting %s by %g'
                              % (cls.__name__, kw, order, c, params[i], v))
                ref_c = base.setdefault(i, c.copy())
                rec.check(np.allclose(c, ref_c, atol={
                    'linear': 1e-4, 'poisson': 2e-3, 'logistic': 5e-2}[fam]
                    * (1 + np.abs(ref_c).max()), rtol=0),
                    'sweep-order:%s' % cls.__name__,
                    '%s: order %s, setting %d gives %s instead of %s'
                    % (cls.__name__, order, i, c, ref_c))


def units(tier):
    big = tier == 'thorough'
    u = []
    n = 5 if big else 4
    for fam in ('linear', 'poisson', 'logistic'):
        for fi in (True, False):
            for head in itertools.product((-1., 0., 2.), repeat=4
                                          if big else 2):
                u.append(('lattice-%s-%s-%s' % (fam, fi, head), unit_lattice,
                          (fam, fi, n, head)))
        cf = configs(fam, big)
        rot = itertools.cycle([(3, 1e-2), (1, 1e-2), (4, 1e-3), (2, .2)])
        rot_sizes = itertools.cycle([(1, 5), (1, 2), (1, 4), (1, 7), (1, 3)])
        for ci in range(len(cf)):
            for d in ('a', 'b', 'c', 'one') if big else ('a', 'c', 'one'):
                for n_grid, eps in ([(3, 1e-2), (1, 1e-2), (4, 1e-3),
                                     (2, .2), (7, 1e-2)] if big
                                    else [next(rot)]):
                    u.append(('fit-%s-%d-%s-%d-%s' % (fam, ci, d, n_grid,
                                                      eps), unit_fit,
                              (fam, ci, d, n_grid, eps, big,
                               (1, 2, 3, 4, 5, 7) if big and n_grid < 5
                               else next(rot_sizes))))
                u.append(('first-%s-%d-%s' % (fam, ci, d), unit_first,
                          (fam, ci, d, big)))
            u.append(('sweep-%s-%d' % (fam, ci), unit_sweep,
                      (fam, ci, 'c', (5 if big else 4) if fam == 'linear'
                       else (4 if big else 3), big)))
    return u
