"""C26: predictions follow from the published coefficients."""
import itertools

import numpy as np
import scipy.sparse as sp

from mc import zoo
from mc.stubs import QUIET
from pyuoi.linear_model import (UoI_ElasticNet, UoI_L1Logistic, UoI_Lasso,
                                UoI_Poisson)
from pyuoi.linear_model.lasso import PycLasso
from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
from pyuoi.linear_model.poisson import Poisson

PROPERTY = 'C26'
TECHNIQUE = ('exhaustive enumeration of estimators, options, feature and '
             'class counts, label encodings and pairs of consecutive fits '
             'on the real code; every model is evaluated on a full lattice '
             'of new points against the formula in its published '
             'coefficients')
BOUNDS = {
    'quick': '4 estimator families and the three plain estimators in all '
             'option combinations that matter x 1-4 features x 5 data sets; '
             'predictions at all points of a 7^p lattice (values to 1000) '
             'dense, sparse and as single rows; 12 label encodings x 2-4 '
             'classes; every mask; all ordered pairs of (encoding, class '
             'count) as consecutive fits',
    'thorough': 'as quick with 24 data sets, all options in product, all '
                'ordered triples of fits'}
ASSUMPTIONS = ['classes within 1e-9 of the highest probability are equally '
               'good answers', 'a mean within rounding of an integer has two '
               'acceptable floors']
FAST = dict(n_boots_sel=2, n_boots_est=2, stability_selection=[1, 2],
            random_state=0, logger=QUIET)


def lattice(p):
    v = {1: (-1000., -30., -1., 0., .5, 2., 1000.),
         2: (-1000., -30., -1., 0., .5, 2., 1000.),
         3: (-1000., -1., 0., .5, 2.), 4: (-30., 0., 1.)}.get(p, (-1., 1.))
    return np.array(list(itertools.product(v, repeat=p)))


def dense(v):
    return v.toarray() if sp.issparse(v) else np.asarray(v)


def same(a, b, scale=1.):
    """Equal up to rounding, infinities included."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    fin = np.isfinite(b) & np.isfinite(a)
    return bool((np.isclose(a, b, rtol=1e-9, atol=1e-9 * scale)
                 | (~fin & (a == b))).all())


def close_mean(a, b, eta, scale):
    """exp of scores that agree to rounding."""
    with np.errstate(all='ignore'):
        tol = 1e-12 * scale
        lo = np.exp(np.minimum(eta - tol, 709)) * (1 - 1e-9)
        hi = np.exp(eta + tol) * (1 + 1e-9)
        a = np.asarray(a)
        return a.shape == b.shape and bool(((a >= lo) & (a <= hi)
                                            | (a == b)).all())


def affine(Z, coef, icpt):
    """Scores, and their scale for rounding."""
    c = np.atleast_2d(coef)
    eta = np.array([[sum(z[j] * w[j] for j in range(len(w))) for w in c]
                    for z in Z]) + np.ravel(icpt)
    scale = 1 + np.abs(Z).max() * np.abs(c).max() * c.shape[1] \
        + np.abs(icpt).max()
    return eta, scale


def points(rec, est, fam, Z, name, methods=('array', 'sparse', 'row')):
    """Predictions at the points Z against the published coefficients."""
    coef, icpt = np.array(dense(est.coef_)), np.array(est.intercept_)
    eta, scale = affine(Z, coef, icpt)
    forms = {'array': Z}
    if 'sparse' in methods:
        forms['sparse'] = sp.csr_matrix(Z)
    if 'row' in methods:
        forms['row'] = Z[-1:]
    if 'column' in methods:
        forms['column'] = np.asfortranarray(Z)
    for form, A in forms.items():
        e = eta[-1:] if form == 'row' else eta
        rec.step()
        key = '%s:%s' % (fam, form)
        what = '%s (%s)' % (name, form)
        with np.errstate(all='ignore'):
            if fam == 'linear':
                got = est.predict(A)
                rec.check(same(got, e[:, 0] if np.ndim(coef) == 1 else e,
                               scale), 'affine:' + key, '%s: predict gives %r'
                          ' instead of %r' % (what, got, e))
            elif fam == 'poisson':
                m, f = est.predict_mean(A), est.predict(A)
                want = np.exp(e[:, 0])
                rec.check(close_mean(m, want, e[:, 0], scale),
                          'mean:' + key, '%s: mean %r instead of %r'
                          % (what, m, want))
                tol = 1e-12 * scale + 1e-9
                lo = np.floor(np.exp(e[:, 0] - tol))
                hi = np.floor(np.exp(e[:, 0] + tol))
                ok = np.shape(f) == want.shape and bool(
                    ((f >= lo) & (f <= hi) & (f == np.floor(f))
                     | (f == np.floor(want))).all())
                rec.check(ok, 'floor:' + key, '%s: predict %r for means %r'
                          % (what, f, want))
            else:
                classes(rec, est, A, e, key, what)


def classes(rec, est, A, e, key, what):
    K = len(est.classes_)
    if e.shape[1] == 1:
        p1 = 1. / (1 + np.exp(-e[:, 0]))
        want = np.c_[1. / (1 + np.exp(e[:, 0])), p1]
    else:
        q = np.exp(e - e.max(1, keepdims=True))
        want = q / q.sum(1, keepdims=True)
    P = est.predict_proba(A)
    rec.check(P.shape == (len(e), K), 'proba-shape:' + key, '%s: %s'
              % (what, P.shape))
    if P.shape != (len(e), K) or want.shape != P.shape:
        rec.check(want.shape == P.shape, 'coef-shape:' + key,
                  '%s: coefficients for %s, probabilities %s'
                  % (what, want.shape, P.shape))
        return
    tol = 1e-8
    i = int(np.abs(P - want).max(1).argmax()) if np.isfinite(P).all() else 0
    rec.check(np.isfinite(P).all() and (P >= 0).all()
              and np.allclose(P.sum(1), 1, rtol=0, atol=1e-9),
              'simplex:' + key, '%s: probabilities %r' % (what, P[i]))
    rec.check(np.allclose(P, want, rtol=1e-6, atol=tol), 'proba:' + key,
              '%s: probabilities %r instead of %r' % (what, P[i], want[i]))
    y = est.predict(A)
    ok = np.shape(y) == (len(e),)
    rec.check(ok, 'class-shape:' + key, '%s: %s' % (what, np.shape(y)))
    lab = list(est.classes_)
    for i in range(len(e) if ok else 0):
        if y[i] not in lab:
            rec.fail('class:' + key, '%s: predicts %r, classes %r'
                     % (what, y[i], lab))
            return
        k = lab.index(y[i])
        s = np.r_[0, e[i]] if e.shape[1] == 1 else e[i]
        if s[k] < s.max() - 1e-9 * (1 + np.abs(s).max()):
            rec.fail('argmax:' + key, '%s: predicts %r with scores %r of %r'
                     % (what, y[i], s, lab))
            return
    if hasattr(est, 'predict_log_proba'):
        L = est.predict_log_proba(A)
        rec.check(np.allclose(np.exp(L), want, rtol=1e-6, atol=tol),
                  'log-proba:' + key, '%s: %r' % (what, L[:3]))
    D = est.decision_function(A)
    rec.check(np.shape(D) == (e[:, 0] if e.shape[1] == 1 else e).shape
              and np.allclose(D.reshape(e.shape), e, rtol=1e-9,
                              atol=1e-9 * (1 + np.abs(e).max())),
              'decision:' + key, '%s: %r instead of %r' % (what, D[:3],
                                                           e[:3]))


def shapes(rec, est, fam, p, K, multi, name):
    if fam == 'logistic':
        k = 1 if K == 2 and not multi else K
        want = (k, p)
        ok = np.shape(est.intercept_) == (k,)
    else:
        want = (p,)
        ok = np.size(est.intercept_) == 1
    rec.check(np.shape(est.coef_) == want, 'shape:coef:' + fam,
              '%s: coefficients of shape %s instead of %s'
              % (name, np.shape(est.coef_), want))
    rec.check(ok, 'shape:intercept:' + fam, '%s: intercept of shape %s'
              % (name, np.shape(est.intercept_)))
    return np.shape(est.coef_) == want and ok


def data(fam, n, p, K, seed):
    g = np.random.RandomState(1000 * seed + 10 * p + K)
    X = g.randn(n, p)
    w = np.array([1.5, -1., .5, 0.])[:p]
    if seed % 5 == 4:
        w = w * 0           # nothing to find
    if seed % 5 == 3:
        X = X * 5 + 20.
    eta = (X - X.mean(0)).dot(w)
    if fam == 'linear':
        return X, eta + .3 * g.randn(n) + 2
    if fam == 'poisson':
        y = g.poisson(np.exp(.3 * eta / (1 + eta.std()) + .5)).astype(float)
        y[0] = 3.
        return X, y
    y = np.argsort(np.argsort(eta + .1 * g.randn(n))) * K // n
    y[:2 * K] = np.tile(np.arange(K), 2)
    return X, y


def options(fam, full):
    out = []
    base = [dict(fit_intercept=i, standardize=s)
            for i in (True, False) for s in (True, False)]
    if fam == 'linear':
        for b in base:
            out.append((UoI_Lasso, dict(b, n_lambdas=3)))
            if b['fit_intercept']:
                out.append((UoI_Lasso, dict(b, n_lambdas=3, solver='pyc')))
            out.append((UoI_ElasticNet, dict(b, n_lambdas=2,
                                             alphas=np.array([.5, 1.]))))
        out.append((UoI_Lasso, dict(n_lambdas=1, eps=1.)))
        for m in ('AIC', 'AICc', 'BIC'):
            for b in base if full else base[:1]:
                out.append((UoI_Lasso, dict(b, n_lambdas=3,
                                            estimation_score=m)))
    elif fam == 'poisson':
        for b in base:
            for s in ('lbfgs', 'cd'):
                out.append((UoI_Poisson, dict(b, n_lambdas=2, solver=s)))
                for a, r in ((.05, 1.), (.1, .5), (0., 0.)):
                    if s == 'cd' and a == 0:
                        continue
                    out.append((Poisson, dict(b, solver=s, alpha=a,
                                              l1_ratio=r)))
        for m in ('AIC', 'BIC'):
            out.append((UoI_Poisson, dict(n_lambdas=2, estimation_score=m)))
    else:
        for b in base:
            for mc in ('auto', 'multinomial'):
                for sh in (True, False):
                    if full or sh or b['standardize']:
                        out.append((UoI_L1Logistic, dict(
                            b, n_C=2, multi_class=mc, shared_support=sh,
                            estimation_score='log' if sh else 'acc')))
                for pen in ('l1', 'l2'):
                    out.append((MaskedCoefLogisticRegression, dict(
                        b, multi_class=mc, penalty=pen)))
    return out


def build(cls, kw):
    kw = dict(kw)
    if cls.__name__.startswith('UoI'):
        kw = dict(FAST, **kw)
    return cls(**kw)


def shown(cls, kw):
    return '%s(%s)' % (cls.__name__, ', '.join(
        '%s=%s' % i for i in sorted(kw.items())))


def unit_models(rec, fam, p, seeds, full):
    for (cls, kw), seed in itertools.product(options(fam, full), seeds):
        for K in (2, 3, 4) if fam == 'logistic' else (1,):
            if not full and fam == 'logistic' and (K + seed) % 2 \
                    and cls is UoI_L1Logistic:
                continue
            X, y = data(fam, 16 + 6 * (K > 2), p, K, seed)
            est = build(cls, kw)
            name = '%s on %d features, data %d, %d classes' % (
                shown(cls, kw), p, seed, K)
            rec.state(name)
            rec.trace()
            try:
                est.fit(X, y)
            except Exception as e:
                rec.fail('fit:%s' % cls.__name__, '%s: %r' % (name, e))
                continue
            if shapes(rec, est, fam, p, K,
                      kw.get('multi_class') == 'multinomial', name):
                points(rec, est, fam, np.r_[X, lattice(p)], name)
                scores(rec, est, fam, X, y, name)
    rec.sample(family=fam, features=p, options=len(options(fam, full)))


def scores(rec, est, fam, X, y, name):
    if fam == 'linear':
        f = est.predict(X)
        want = 1 - ((y - f) ** 2).sum() / ((y - y.mean()) ** 2).sum()
    elif fam == 'logistic':
        want = (est.predict(X) == y).mean()
    else:
        return
    got = est.score(X, y)
    rec.step()
    rec.check(abs(got - want) < 1e-9 * (1 + abs(want)), 'score:' + fam,
              '%s: score %s instead of %s' % (name, got, want))


# --------------------------------------------------------------- labels
ENCODINGS = {
    'shifted': lambda k: np.arange(k) + 3,
    'gaps': lambda k: np.array([-7, 0, 2, 100])[:k],
    'negative': lambda k: np.arange(k) - k,
    'plusminus': lambda k: np.array([-1, 1, 3, 5])[:k],
    'text': lambda k: np.array(['a', 'bb', 'ccc', 'd'])[:k],
    'objects': lambda k: np.array(['x', 'y', 'zz', 'zzz'], object)[:k],
    'floats': lambda k: np.array([0., 1., 2., 5.])[:k],
    'int8': lambda k: np.array([-128, 0, 5, 127], np.int8)[:k],
    'unsigned': lambda k: np.array([0, 1, 7, 255], np.uint8)[:k],
    'bool': lambda k: np.array([False, True]),
    # labels whose order is not that of the classes in the data
    'descending': lambda k: np.arange(k)[::-1].copy(),
    'mixed': lambda k: np.array(['m', 'a', 'z', 'k'])[:k]}


def separated(p, K, n=7):
    """Classes far apart, one after the other along a line."""
    g = np.random.RandomState(K * 10 + p)
    c = np.arange(K)
    ang = 2 * np.pi * c / K
    M = np.zeros((K, p))
    if p == 1:
        M[:, 0] = 8. * (c - (K - 1) / 2)
    else:
        M[:, 0], M[:, 1] = 8 * np.cos(ang), 8 * np.sin(ang)
    y = np.tile(c, n)
    return M[y] + .3 * g.randn(K * n, p), y, M


CLASSIFIERS = [
    (UoI_L1Logistic, dict(n_C=3)),
    (UoI_L1Logistic, dict(n_C=3, multi_class='multinomial',
                          estimation_score='log')),
    (UoI_L1Logistic, dict(n_C=3, shared_support=False, standardize=False,
                          estimation_score='BIC')),
    (MaskedCoefLogisticRegression, dict(penalty='l2', C=10.)),
    (MaskedCoefLogisticRegression, dict(penalty='l1', C=10.,
                                        multi_class='multinomial')),
    (MaskedCoefLogisticRegression, dict(penalty='l2', C=1.,
                                        standardize=True,
                                        class_weight='balanced'))]


def labelled(est, kw, enc, K, p, column=False):
    X, c, M = separated(p, K)
    lab = ENCODINGS[enc](K)
    y = lab[c]
    if column:
        y = y[:, None]
    est.fit(X, y)
    return X, lab[c], M, lab


def judge_labels(rec, est, kw, X, y, M, lab, K, p, name):
    cl = list(est.classes_)
    rec.check(cl == sorted(lab.tolist()), 'labels:classes', '%s: classes %r '
              'of labels %r' % (name, cl, lab))
    if not shapes(rec, est, 'logistic', p, K,
                  kw.get('multi_class') == 'multinomial', name):
        return
    points(rec, est, 'logistic', np.r_[X, 10 * M, lattice(p)[::5]], name,
           ('array',))
    got = est.predict(X)
    rec.check(np.asarray(got).dtype.kind == lab.dtype.kind
              or lab.dtype.kind in 'UO', 'labels:type', '%s: predicts %s '
              'for labels %s' % (name, np.asarray(got).dtype, lab.dtype))
    # (one coordinate cannot separate three classes under selection, nor can
    # a model that selected too few features)
    if (p >= 2 or K == 2) and np.any(est.coef_, axis=0)[:min(p, K - 1)].all():
        acc = np.mean([a == b for a, b in zip(got, y)])
        rec.check(acc >= .9, 'labels:accuracy', '%s: %s of separated classes '
                  'are predicted correctly' % (name, acc))
        far = est.predict(10 * M)
        rec.check([a for a in far] == [b for b in lab] or K > 2 and p > 2,
                  'labels:far', '%s: predicts %r at the centres of %r'
                  % (name, far, lab))


def unit_labels(rec, ci):
    cls, kw = CLASSIFIERS[ci]
    for p, K, enc, column in itertools.product(
            (1, 2, 3), (2, 3, 4), ENCODINGS, (False, True)):
        if enc == 'bool' and K > 2 or column and cls is not UoI_L1Logistic:
            continue
        name = '%s, labels %s, %d classes, %d features' % (
            shown(cls, kw), enc, K, p)
        rec.state(name, column)
        rec.step()
        rec.trace()
        est = build(cls, kw)
        try:
            X, y, M, lab = labelled(est, kw, enc, K, p, column)
        except Exception as e:
            rec.fail('labels:fit', '%s: %r' % (name, e))
            continue
        judge_labels(rec, est, kw, X, y, M, lab, K, p, name)


def unit_refits(rec, ci, depth):
    """Consecutive fits with other labels and class counts."""
    cls, kw = CLASSIFIERS[ci]
    kinds = [('shifted', 2), ('text', 3), ('negative', 4), ('bool', 2),
             ('descending', 3), ('mixed', 2)]
    for seq in itertools.product(kinds, repeat=depth):
        est = build(cls, kw)
        name = '%s, fits %s' % (shown(cls, kw), seq)
        rec.state(name)
        rec.trace()
        try:
            for enc, K in seq:
                out = labelled(est, kw, enc, K, 2)
                rec.step()
        except Exception as e:
            rec.fail('refits:fit', '%s: %r' % (name, e))
            continue
        X, y, M, lab = out
        judge_labels(rec, est, kw, X, y, M, lab, seq[-1][1], 2, name)


# ---------------------------------------------------------------- masks
def unit_masks(rec):
    for K, p, pen, mc, std, icpt in itertools.product(
            (2, 3), (1, 2, 3), ('l1', 'l2'), ('auto', 'multinomial'),
            (True, False), (True, False)):
        k = 1 if K == 2 and mc == 'auto' else K
        X, y, M = separated(p, K, 5)
        masks = list(itertools.product((False, True), repeat=p * k)) \
            if p * k <= 4 else [tuple((i >> j & 1) == 1
                                      for j in range(p * k))
                                for i in range(0, 2 ** (p * k), 5)]
        for mask in masks:
            mask = np.array(mask).reshape(k, p)
            if k == 1:
                mask = mask[0]
            est = MaskedCoefLogisticRegression(
                penalty=pen, multi_class=mc, standardize=std,
                fit_intercept=icpt, C=5.)
            name = 'masked %s %s, %d classes, mask %s' % (
                pen, mc, K, mask.astype(int).tolist())
            rec.state(name, std, icpt)
            rec.trace()
            try:
                est.fit(X, y + 2, coef_mask=mask)
            except Exception as e:
                rec.fail('masks:fit', '%s: %r' % (name, e))
                continue
            if shapes(rec, est, 'logistic', p, K, mc == 'multinomial', name):
                rec.check(not np.any(est.coef_[~np.atleast_2d(mask)]),
                          'masks:zero', '%s: %r' % (name, est.coef_))
                points(rec, est, 'logistic', np.r_[X, 5 * M], name,
                       ('array',))


def unit_pyclasso(rec, big):
    for p, seed, na in itertools.product((1, 2, 3), range(12 if big else 4),
                                         (1, 2, 3, 4, 5)):
        X, y = data('linear', 14, p, 1, seed)
        est = PycLasso(alphas=np.array([1., .4, .2, .1, .03])[:na],
                       max_iter=1000, tol=1e-6)
        est.fit(X, y)
        rec.state(p, seed, na)
        rec.trace()
        ok = np.shape(est.coef_) == (na, p) and \
            np.shape(est.intercept_) == (na,)
        if rec.check(ok, 'shape:path', 'PycLasso: %d strengths, %d features: '
                     'coefficients %s, intercepts %s'
                     % (na, p, np.shape(est.coef_),
                        np.shape(est.intercept_))):
            points(rec, est, 'linear', np.r_[X, lattice(p)], 'PycLasso path',
                   ('array', 'row', 'column'))


def unit_zoo(rec, name):
    """The configurations of the other checks, new widths after a refit."""
    fam = zoo.family(name)
    tags = ('A', 'B', 'S', 'W') + (('C',) if fam == 'logistic' else ())
    for seq in itertools.product(tags, repeat=2):
        est = zoo.make(name, 0)
        for tag in seq:
            X, y = zoo.data(fam, tag)
            zoo.fit(est, fam, X, y)
            rec.step()
        rec.state(name, seq)
        rec.trace()
        p = X.shape[1]
        K = len(set(y)) if fam == 'logistic' else 1
        Z = np.r_[X, lattice(p)] if p <= 4 else np.r_[X, -X, 100 * X]
        what = '%s after %s' % (name, seq)
        if shapes(rec, est, fam, p, K, name == 'logistic-multi', what):
            points(rec, est, fam, Z, what)


def units(tier):
    q = tier == 'quick'
    out = []
    seeds = range(5) if q else range(24)
    for fam in ('linear', 'poisson', 'logistic'):
        for p in (1, 2, 3, 4):
            for s in seeds:
                out.append(('models-%s-%d-%d' % (fam, p, s), unit_models,
                            (fam, p, (s,), not q)))
    for ci in range(len(CLASSIFIERS)):
        out.append(('labels-%d' % ci, unit_labels, (ci,)))
        out.append(('refits-%d' % ci, unit_refits, (ci, 2 if q else 3)))
    out += [('masks', unit_masks, ()), ('pyclasso', unit_pyclasso,
                                        (not q,))]
    for name in zoo.CONFIGS:
        if zoo.family(name) in ('linear', 'logistic', 'poisson'):
            out.append(('zoo-%s' % name, unit_zoo, (name,)))
    return out
