"""C13: masked logistic regression is optimal on its mask, zero off it."""
import itertools

import numpy as np
from scipy import sparse

from mc import refmodel as ref
from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression

PROPERTY = 'C13'
TECHNIQUE = ('exhaustive enumeration of masks, penalties, weights, labels, '
             'storage and warm-start histories on the real estimator, each '
             'decided by the optimality conditions of the declared problem')
BOUNDS = {
    'quick': 'every mask of a binary problem with 3 features (8) and of a '
             '3-class problem with 2 features (64), x penalty x C in '
             '{.2,2,20,1000} x intercept; every warm-start history of up to '
             '3 fits over 4 settings (C, mask); 5 sample weightings x 3 '
             'class weightings x 5 label alphabets; dense/csr/csc; '
             'unbalanced classes; standardize on and off; zero off every '
             'mask at iteration limits 1, 2, 4, 50',
    'thorough': 'masks on 3 data sets (4 features: 16; 3 classes x 3 '
                'features: 512), histories of length 4'}
ASSUMPTIONS = ['tolerance: optimality residual 5e-4 (relative to the scale '
               'of the data) with solver tol 1e-6, since scipy also stops on '
               'small decreases']
TOL = 5e-4
LABELS = {
    2: [(0, 1), (-1, 1), (3, 7), ('b', 'a'), (2.5, -1.5), (False, True),
        (1, 2)],
    3: [(0, 1, 2), (5, -1, 3), ('x', 'y', 'a'), (.5, 1.5, -2.),
        (1, 2, 3)]}


def data(d, K):
    X, y = ref.dataset(d, 'binary' if K == 2 else 'multi')
    return X, y


def residual(X, yi, coef, b, penalty, C, mask, fi, sw, rows):
    """Sup-norm violation of the optimality conditions."""
    n, p = X.shape
    sw = np.ones(n) if sw is None else np.asarray(sw, float)
    eta = X.dot(coef.T) + b
    if rows == 1:
        r = (1 / (1 + np.exp(-eta[:, 0])) - yi) * sw
        G = r.dot(X)[None] / n
        gb = np.array([r.sum() / n])
    else:
        e = np.exp(eta - eta.max(1, keepdims=True))
        r = (e / e.sum(1, keepdims=True) - np.eye(rows)[yi]) * sw[:, None]
        G = r.T.dot(X) / n
        gb = r.sum(0) / n
    lam = 1. / C
    if penalty == 'l2':
        V = np.abs(G + lam * coef)
    else:
        V = np.where(coef != 0, np.abs(G + lam * np.sign(coef)),
                     np.maximum(np.abs(G) - lam, 0))
    V = V * (mask != 0)
    out = V.max(initial=0.) / (1 + np.abs(X).max())
    if fi:
        out = max(out, np.abs(gb).max())
    return out


def decide(rec, key, m, X, y, penalty, C, mask, fi, sw=None,
           rows=None, standardize=False, **info):
    """Check a fitted model against the declared problem."""
    classes = np.unique(y)
    yi = np.searchsorted(classes, y)
    rows = rows or (1 if len(classes) == 2 else len(classes))
    p = X.shape[1]
    info = dict(info, penalty=penalty, C=C, fit_intercept=fi,
                mask=None if mask is None else np.ravel(mask))
    rec.check(list(m.classes_) == list(classes), key + ':classes',
              '%s' % m.classes_, **info)
    coef = np.asarray(m.coef_, float)
    b = np.asarray(m.intercept_, float)
    if not rec.check(coef.shape == (rows, p) and b.shape == (rows,),
                     key + ':shape', 'coef %s intercept %s'
                     % (coef.shape, b.shape), **info):
        return
    mk = np.ones((rows, p)) if mask is None else \
        np.asarray(mask, float).reshape(rows, p)
    rec.check(not coef[mk == 0].any(), key + ':masked',
              'coefficients outside the mask: %s' % coef, **info)
    if not fi:
        rec.check(not b.any(), key + ':intercept', 'intercept %s' % b, **info)
    Xd = np.asarray(X.todense()) if sparse.issparse(X) else X
    if standardize:
        mu = Xd.mean(0) if fi else np.zeros(p)
        sd = Xd.std(0)
        sd[sd == 0] = 1.
        Z = (Xd - mu) / sd
        c = coef * sd
        bb = b + coef.dot(mu)
    else:
        Z, c, bb = Xd, coef, b
    v = residual(Z, yi, c, bb, penalty, C, mk, fi, sw, rows)
    rec.check(v <= TOL, key + ':optimal', 'optimality violated by %g at '
              'coef %s intercept %s' % (v, coef, b), **info)
    # probabilities are those of the published coefficients
    P = m.predict_proba(X)
    eta = Xd.dot(coef.T) + b
    if rows == 1:
        q = 1 / (1 + np.exp(-eta[:, 0]))
        want = np.column_stack([1 - q, q])
    else:
        e = np.exp(eta - eta.max(1, keepdims=True))
        want = e / e.sum(1, keepdims=True)
    rec.check(np.allclose(P, want, atol=1e-9), key + ':probabilities',
              'predict_proba differs from the published model', **info)


def fit(X, y, mask, sw=None, model=None, **kw):
    kw.setdefault('tol', 1e-6)
    kw.setdefault('max_iter', 20000)
    if model is None:
        model = MaskedCoefLogisticRegression(**kw)
    else:
        model.set_params(**kw)
    model.fit(X.copy(), y.copy(),
              sample_weight=None if sw is None else np.array(sw),
              coef_mask=None if mask is None else np.array(mask, float))
    return model


def masks_of(K, p):
    R = 1 if K == 2 else K
    for bits in itertools.product((0, 1), repeat=R * p):
        mk = np.array(bits, float)
        yield mk if K == 2 else mk.reshape(R, p)


def unit_masks(rec, d, K, penalty, fi, C, st, cols):
    X, y = data(d, K)
    X = X[:, :cols]
    todo = [None] + list(masks_of(K, cols))
    for mask in todo:
        m = fit(X, y, mask, penalty=penalty, C=C, fit_intercept=fi,
                standardize=st)
        rec.step()
        rec.trace()
        rec.state('mask', d, K, penalty, fi, C, st, mask, m.coef_ != 0)
        decide(rec, 'mask', m, X, y, penalty, C, mask, fi,
               standardize=st, data=d)
    rec.sample(penalty=penalty, C=C, coef=m.coef_, intercept=m.intercept_)


def unit_history(rec, d, K, penalty, fi, first, depth):
    """Warm-started fits in every order."""
    X, y = data(d, K)
    p = X.shape[1]
    R = 1 if K == 2 else K
    full = np.ones((R, p))
    part = full.copy()
    part[:, 0] = 0
    part[-1, -1] = 0
    if K == 2:
        full, part = full.ravel(), part.ravel()
    settings = [(30., None, None), (1.2, None, None), (200., part, None),
                (8., full, 1), (.05, None, None)]
    sw = 1. + (np.arange(len(y)) % 3)
    for seq in itertools.product(range(len(settings)), repeat=depth - 1):
        seq = (first,) + seq
        m = None
        hist = []
        for s in seq:
            C, mask, w = settings[s]
            m = fit(X, y, mask, sw=sw if w else None, model=m,
                    penalty=penalty, C=C, fit_intercept=fi, warm_start=True)
            hist.append(s)
            if not rec.state('hist', d, K, penalty, fi, tuple(hist)):
                continue
            rec.step()
            decide(rec, 'history', m, X, y, penalty, C, mask, fi,
                   sw=sw if w else None, history=list(hist))
        rec.trace()
    rec.sample(history=list(seq), coef=m.coef_)


def unit_limited(rec, K, penalty, fi):
    """Zero off the mask wherever the iterations stop: every mask x limit x
    strength, cold and from a fit with every feature."""
    X, y = data('a', K)
    p = X.shape[1]
    R = 1 if K == 2 else K
    bits = list(itertools.product((0, 1), repeat=p))
    if K == 2:
        masks = [np.array(b) for b in bits]
    else:
        masks = [np.array(m) for m in itertools.product(
            [b for b in bits if sum(b) in (0, 1, p)], repeat=K)]
    for C in (2., np.inf):
        for limit in (1, 2, 4, 50):
            for warm in (False, True):
                for mask in masks:
                    m = None
                    kw = dict(penalty=penalty, C=C, fit_intercept=fi,
                              warm_start=warm, tol=1e-3)
                    if warm:
                        m = fit(X, y, None, max_iter=20, **kw)
                    m = fit(X, y, mask, model=m, max_iter=limit, **kw)
                    rec.step()
                    rec.state(K, penalty, fi, C, limit, warm, mask)
                    coef = np.asarray(m.coef_).reshape(R, p)
                    off = coef[mask.reshape(R, p) == 0]
                    rec.check(not off.any(), 'limited:off-mask',
                              'nonzero off the mask %s: %s' % (mask, coef),
                              C=C, max_iter=limit, warm=warm)
                    rec.check(np.isfinite(coef).all(), 'limited:finite', '')
                    if C > 2 and not m.coef_.any() and mask.all():
                        rec.fail('harness:limited', 'nothing fitted')


def unit_weights(rec, K, penalty, fi):
    X, y = data('c', K)
    n = len(y)
    W = [None, np.ones(n), np.arange(n) % 2 + 1., (np.arange(n) % 5 > 0) * 2.,
         np.where(y == 0, .25, 3.)]
    for labels in LABELS[K]:
        lab = np.array(labels)
        yl = lab[y]
        order = np.unique(lab)
        for wi, sw in enumerate(W):
            for cw in (None, 'balanced', 'dict', 'first', 'last', 'more'):
                if cw in ('dict', 'first', 'last', 'more'):
                    # (classes without an entry have weight one)
                    cwv = {l: w for l, w in zip(order.tolist(), (2., .5, 3.))}
                    if cw in ('first', 'last'):
                        cwv = dict([list(cwv.items())[
                            0 if cw == 'first' else -1]])
                    elif cw == 'more':
                        cwv.pop(order.tolist()[0])
                    per = np.array([cwv.get(v, 1.) for v in yl.tolist()])
                elif cw == 'balanced':
                    cnt = np.array([(yl == o).sum() for o in order])
                    per = n / (len(order) * cnt[np.searchsorted(order, yl)])
                    cwv = cw
                else:
                    per, cwv = np.ones(n), None
                m = fit(X, yl, None, sw=sw, penalty=penalty, C=6.,
                        fit_intercept=fi, class_weight=cwv)
                rec.step()
                rec.trace()
                rec.state('w', K, penalty, fi, labels, wi, cw)
                tot = per if sw is None else per * sw
                decide(rec, 'weights', m, X, yl, penalty, 6., None,
                       fi, sw=tot, labels=str(labels), weights=wi,
                       class_weight=cw)
                want = order[np.asarray(m.predict_proba(X)).argmax(1)]
                rec.check((m.predict(X) == want).all(), 'weights:predict',
                          'predicted labels %s' % m.predict(X)[:5])


def unit_storage(rec, K, penalty, fi):
    for d in ('a', 'c'):
        X, y = data(d, K)
        X = X * (np.abs(X) > .6)
        p = X.shape[1]
        R = 1 if K == 2 else K
        mk = (np.arange(R * p) % 3 != 1).astype(float)
        mk = mk if K == 2 else mk.reshape(R, p)
        for mask in (None, mk, mk.astype(bool), mk.astype(int)):
            for fmt in (np.array, np.asfortranarray, sparse.csr_matrix,
                        sparse.csc_matrix, sparse.coo_matrix):
                for C in (1.5, 50.):
                    m = MaskedCoefLogisticRegression(
                        penalty=penalty, C=C, fit_intercept=fi, tol=1e-6,
                        max_iter=20000).fit(fmt(X), y, coef_mask=mask)
                    rec.step()
                    rec.trace()
                    rec.state('st', K, penalty, fi, d, mask, C, str(fmt))
                    decide(rec, 'storage', m, fmt(X) if sparse.issparse(
                        fmt(X)) else X, y, penalty, C, mask, fi,
                        storage=fmt.__name__)


def unit_unbalanced(rec, K, penalty, fi):
    """Every number of positives; strengths around the all-zero boundary."""
    rng = np.random.RandomState(2)
    n = 24
    X = rng.randn(n, 2) + np.array([0., 1.5])
    for k in range(2, n - 1):
        y = np.zeros(n, int)
        y[rng.permutation(n)[:k]] = 1
        if K == 3:
            y[:2] = 2
        for C in (.3, 1., 2., 4., 8., 16., 64.):
            m = fit(X, y, None, penalty=penalty, C=C, fit_intercept=fi)
            rec.step()
            rec.trace()
            rec.state('u', K, penalty, fi, k, C, m.coef_ != 0)
            decide(rec, 'unbalanced', m, X, y, penalty, C, None, fi,
                   positives=k)
    rec.sample(positives=k, C=C, coef=m.coef_, intercept=m.intercept_)


def unit_multinomial_binary(rec, penalty, fi):
    """multi_class='multinomial' on two classes: two rows of coefficients."""
    X, y = data('c', 2)
    p = X.shape[1]
    for C in (.5, 5., 50.):
        for mask in [None] + list(masks_of(3, p))[::37]:
            if mask is not None:
                mask = mask[:2]
            m = fit(X, y, mask, penalty=penalty, C=C, fit_intercept=fi,
                    multi_class='multinomial')
            rec.step()
            rec.trace()
            rec.state('mb', penalty, fi, C, mask)
            decide(rec, 'two-row', m, X, y, penalty, C, mask, fi,
                   rows=2)


def units(tier):
    big = tier == 'thorough'
    u = []
    for pen in ('l1', 'l2'):
        for fi in (True, False):
            t = '%s-%d' % (pen, fi)
            for C in (.2, 2., 20., 1000.):
                for st in (False, True):
                    for d, K, cols in (('c', 2, 3), ('c', 3, 2)) + (
                            (('a', 2, 4), ('b', 2, 5), ('c', 3, 3),
                             ('a', 3, 2)) if big else
                            (('one', 2, 1),)):
                        u.append(('masks-%s-%s-%d-%s%d%d' % (
                            t, C, st, d, K, cols), unit_masks,
                            (d, K, pen, fi, C, st, cols)))
            for K in (2, 3):
                for d in ('c', 'a') if big else ('c',):
                    for first in range(5):
                        u.append(('history-%s-%d-%s-%d' % (t, K, d, first),
                                  unit_history, (d, K, pen, fi, first,
                                                 4 if big else 3)))
                u.append(('limited-%s-%d' % (t, K), unit_limited,
                          (K, pen, fi)))
                u.append(('weights-%s-%d' % (t, K), unit_weights,
                          (K, pen, fi)))
                u.append(('storage-%s-%d' % (t, K), unit_storage,
                          (K, pen, fi)))
                u.append(('unbalanced-%s-%d' % (t, K), unit_unbalanced,
                          (K, pen, fi)))
            u.append(('tworow-%s' % t, unit_multinomial_binary, (pen, fi)))
    return u
