"""C22: results do not depend on how the same numbers are stored."""
import numpy as np
import scipy.sparse as sp

from mc import zoo
from mc.stubs import QUIET                                       # noqa: F401
from pyuoi.decomposition.utils import dissimilarity
from pyuoi.lbfgs import fmin_lbfgs
from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
from pyuoi.linear_model.poisson import Poisson
from pyuoi.utils import (AIC, AICc, BIC, log_likelihood_glm, sigmoid,
                         softmax)

PROPERTY = 'C22'
TECHNIQUE = ('exhaustive enumeration of the storage forms of every array '
             'argument (products of them for data and response) through '
             'fit, predict and transform of the real estimators, against '
             'the same numbers as contiguous float64 arrays')
BOUNDS = {
    'quick': '23 estimator configurations x integer and fractional data x all '
             '22 forms of X, all 11 forms of y, all 22 x 11 pairs for 11 '
             'configurations; all forms of the probe data, weights, masks, '
             'labels and start points',
    'thorough': 'all 22 x 11 pairs for every configuration and three data '
                'sets each'}
ASSUMPTIONS = ['the data are small integers, so that every form holds '
               'exactly the same numbers',
               'a container an estimator does not document may be rejected; '
               'sparse data for the factorization is not compared, whose '
               'default solver starts at random']


def view(X):
    big = np.full(tuple(2 * s for s in X.shape), 77, X.dtype)
    s = tuple(slice(1, None, 2) for _ in X.shape)
    big[s] = X
    return big[s]


def neg(X):
    s = tuple(slice(None, None, -1) for _ in X.shape)
    return X[s].copy()[s]


def ro(X):
    X = X.copy()
    X.flags.writeable = False
    return X


def rof(X):
    X = np.asfortranarray(X.copy())
    X.flags.writeable = False
    return X


def mixed(X):
    """Rows contiguous, but not adjacent in memory."""
    big = np.full((X.shape[0], X.shape[1] + 3), 77, X.dtype)
    big[:, 1:-2] = X
    return big[:, 1:-2]


def unsorted(X):
    """csr with its column indices in descending order and explicit zeros."""
    n, p = X.shape
    ind = np.tile(np.arange(p)[::-1], n)
    return sp.csr_matrix((X[:, ::-1].ravel().copy(), ind,
                          np.arange(n + 1) * p), shape=(n, p))


def doubled(X):
    """coo with each entry given as two summands."""
    c = sp.coo_matrix(X)
    return sp.coo_matrix((np.r_[c.data - 1, np.ones_like(c.data)],
                          (np.r_[c.row, c.row], np.r_[c.col, c.col])),
                         shape=X.shape)


def summands(X, fmt='csr'):
    """csr or csc with each entry given as two summands."""
    c = getattr(sp, fmt + '_matrix')(X)
    n = len(c.indptr) - 1
    rows = np.repeat(np.arange(n), np.diff(c.indptr))
    order = np.argsort(np.r_[rows, rows], kind='stable')
    out = type(c)((np.r_[c.data - 1, np.ones_like(c.data)][order],
                   np.r_[c.indices, c.indices][order], 2 * c.indptr),
                  shape=X.shape)
    assert out.nnz == 2 * c.nnz and (out.toarray() == X).all()
    return out


DENSE = {'fortran': np.asfortranarray, 'view': view, 'negative': neg,
         'readonly': ro, 'readonly-fortran': rof, 'padded': mixed,
         'float32': lambda X: X.astype('f4'),
         'big-endian': lambda X: X.astype('>f8'),
         'int64': lambda X: X.astype('i8'), 'int32': lambda X: X.astype('i4'),
         'int8': lambda X: X.astype('i1'),
         'int-view': lambda X: view(X.astype('i8')),
         'int-readonly': lambda X: rof(X.astype('i4'))}
SPARSE = {'csr': sp.csr_matrix, 'csc': sp.csc_matrix,
          'csr-array': sp.csr_array, 'csr-unsorted': unsorted,
          'csc-int': lambda X: sp.csc_matrix(X.astype('i8')),
          'coo': sp.coo_matrix, 'coo-doubled': doubled,
          'csr-doubled': summands,
          'csc-doubled': lambda X: summands(X, 'csc'),
          'lil': sp.lil_matrix, 'dok': sp.dok_matrix}
XFORMS = dict(DENSE, **SPARSE)
YFORMS = {'column': lambda y: y[:, None],
          'column-fortran': lambda y: np.asfortranarray(y[:, None]),
          'column-view': lambda y: view(y[:, None]),
          'readonly': ro, 'view': view, 'negative': neg,
          'int64': lambda y: y.astype('i8'),
          'int8': lambda y: y.astype('i1'),
          'float32': lambda y: y.astype('f4'),
          'big-endian': lambda y: y.astype('>f8'),
          'readonly-column': lambda y: ro(y[:, None])}

# the forms of the narrow integers only
NARROW = ('int8', 'int16', 'uint8', 'uint16', 'int64', 'csr-int8',
          'csr-uint8')
DENSE.update((t, lambda X, t=t: X.astype(t)) for t in ('int16', 'uint8',
                                                       'uint16'))
SPARSE.update(('csr-' + t, lambda X, t=t: sp.csr_matrix(X.astype(t)))
              for t in ('int8', 'uint8'))
XFORMS = dict(DENSE, **SPARSE)
YFORMS.update((t, lambda y, t=t: y.astype(t)) for t in ('int16', 'uint8',
                                                        'uint16'))

TOL = dict(rtol=2e-3, atol=1e-3)
PAIRS = ('lasso-cd', 'lasso-raw', 'logistic', 'poisson-noint', 'masked-l1')


def integers(fam, tag):
    """Numbers every form holds exactly (tag *q: X in eighths, but y whole;
    *l: numbers that fill the int8 range, *u: the uint8 range)."""
    X, y = zoo.data(fam, tag[0])
    if tag[1:] in ('l', 'u'):
        X = np.round(X * 120 / np.abs(X).max())
        if tag[1:] == 'u':
            X = X - X.min(0)
        if fam == 'linear':
            y = np.round(y * 120 / np.abs(y).max())
            if tag[1:] == 'u':
                y = y - y.min()
        return X, None if y is None else y.astype(float)
    X = np.round(2 * X)
    if tag.endswith('q'):
        X = X / 8 + (X != 0) * (np.arange(X.shape[1]) % 2) / 8
    if fam == 'nmf':
        X = np.abs(X)
        X[X.sum(1) == 0, 0] = 1
    if fam == 'linear':
        y = np.round(2 * y)
    return X, None if y is None else y.astype(float)


def centers(name):
    """Does this configuration center the data?"""
    est = zoo.make(name, 3)
    return (getattr(est, 'standardize', False)
            and getattr(est, 'fit_intercept', True))


def excluded(name, tag, fx, fy):
    """Forms the estimator does not document."""
    fam = zoo.family(name)
    if fx in SPARSE and fam == 'nmf':
        return True
    # exact for these numbers?
    if tag[1:] == 'l' and 'uint' in fx + fy or tag[1:] == 'u' and (
            fx.endswith('int8') and 'uint' not in fx
            or fy == 'int8'):
        return True
    if tag[1:] not in ('l', 'u') and (
            'uint' in fx or fam == 'linear' and 'uint' in fy):
        return True
    if tag[1:] in ('l', 'u') and fx and fx not in NARROW:
        return True
    # TruncatedSVD's arpack takes floating point data only
    if name == 'cur-arpack' and ('int' in fx):
        return True
    if fam == 'cur' and fx in ('coo', 'coo-doubled'):
        return True         # not indexable
    # a plain Poisson model documents dense data and slices its columns
    if name.startswith('poisson-plain') and fx in ('coo', 'coo-doubled',
                                                   'csr-array'):
        return True
    return False


def run(name, X, y, p):
    est = zoo.make(name, 3)
    zoo.fit(est, zoo.family(name), X, y)
    out = zoo.observe(est, zoo.family(name), p)
    for k, v in out.items():
        if sp.issparse(v):
            out[k] = v.toarray()
    return est, out


def unit_fit(rec, name, tag, pairs):
    fam = zoo.family(name)
    X, y = integers(fam, tag)
    p = X.shape[1]
    est, ref = run(name, X.copy(), None if y is None else y.copy(), p)
    rec.step()
    rec.trace()
    forms = [(fx, '') for fx in XFORMS]
    if y is not None:
        forms += [('', fy) for fy in YFORMS]
        if pairs:
            forms += [(fx, fy) for fx in XFORMS for fy in YFORMS]
    for fx, fy in forms:
        if excluded(name, tag, fx, fy) or tag.endswith('q') and 'int' in fx:
            continue
        rec.state(name, tag, fx, fy)
        rec.step()
        rec.trace()
        Xv = XFORMS[fx](X) if fx else X.copy()
        yv = None if y is None else YFORMS[fy](y) if fy else y.copy()
        what = '%s on data %s with X as %s%s' % (
            name, tag, fx or 'plain', ', y as %s' % fy if fy else '')
        key = '%s:%s:%s' % (name, fx, fy)
        try:
            _, got = run(name, Xv, yv, p)
        except Exception as e:
            rec.check(fx in SPARSE and centers(name)
                      and isinstance(e, ValueError), 'rejected:%s' % key,
                      '%s: %r' % (what, e))
            continue
        if fx in SPARSE and centers(name):
            rec.check(False, 'centred:%s' % key, '%s: centring a sparse '
                      'matrix must be rejected' % what)
            continue
        d = zoo.differ(ref, got, **TOL)
        rec.check(d is None, 'differ:%s' % key, '%s: %s' % (what, d))
        for k in ('coef_', 'intercept_'):
            if k in ref:
                rec.check(not isinstance(got[k], np.matrix)
                          and np.asarray(got[k]).dtype.kind == 'f',
                          'kind:%s:%s' % (k, key), '%s: %s is %r'
                          % (what, k, got[k]))
    if tag[1:] in ('l', 'u'):
        return
    # every form of the data to predict on
    Xp = np.round(3 * zoo.probe(fam, p))
    for m in zoo.METHODS + ('decision_function', 'predict_log_proba',
                            'inverse_transform'):
        if not hasattr(est, m) or (fam == 'cur'
                                   and m == 'inverse_transform'):
            continue
        if fam in ('linear', 'poisson') and m in (
                'predict_proba', 'decision_function', 'predict_log_proba'):
            continue
        P = Xp
        if m == 'inverse_transform':
            P = np.abs(Xp[:, np.arange(est.n_components) % p])
        kw = {}
        if fam == 'nmf' and m == 'transform':
            kw['reconstruction_err'] = False
        f = getattr(est, m)
        want = f(P.copy(), **kw)
        for fx in XFORMS:
            if 'uint' in fx:
                continue
            if fx in SPARSE and (fam in ('nmf', 'cur') or fx.startswith('coo')):
                continue
            rec.state(name, tag, m, fx)
            rec.step()
            rec.trace()
            try:
                got = f(XFORMS[fx](P), **kw)
            except Exception as e:
                rec.fail('rejected:%s:%s:%s' % (name, m, fx),
                         '%s: %s of %s data: %r' % (name, m, fx, e))
                continue
            if sp.issparse(got):
                got = got.toarray()
            d = zoo.differ(want, got, **TOL)
            rec.check(d is None, 'differ:%s:%s:%s' % (name, m, fx),
                      '%s: %s of %s data: %s' % (name, m, fx, d))
    rec.sample(config=name, forms=len(forms),
               coef=ref.get('coef_', ref.get('components_')))


WFORMS = {k: YFORMS[k] for k in ('readonly', 'view', 'negative', 'int64',
                                 'int8', 'float32', 'big-endian')}


def unit_args(rec):
    """Weights, masks, labels and stratification in every form."""
    def same(ref, got, key):
        rec.step()
        rec.trace()
        rec.state(key)
        d = zoo.differ(ref, got, **TOL)
        rec.check(d is None, 'differ:%s' % key, '%s: %s' % (key, d))

    for fam in ('logistic', 'poisson'):
        for tag in 'AC' if fam == 'logistic' else 'A':
            X, y = integers(fam, tag)
            w = np.arange(len(y)) % 3 + 1.

            def make(i):
                if fam == 'logistic':
                    return MaskedCoefLogisticRegression(
                        penalty=('l1', 'l2')[i], C=3.)
                return Poisson(alpha=.1, solver=('lbfgs', 'cd')[i],
                               l1_ratio=.5)
            for i in (0, 1):
                ref = zoo.observe(make(i).fit(X, y, sample_weight=w), fam, 3)
                for f, g in WFORMS.items():
                    got = zoo.observe(make(i).fit(X, y, sample_weight=g(w)),
                                      fam, 3)
                    same(ref, got, 'weights:%s:%s:%d:%s' % (fam, tag, i, f))
                got = zoo.observe(make(i).fit(
                    X, y, sample_weight=w.astype(int).tolist()
                    if fam == 'logistic' else w), fam, 3)
                same(ref, got, 'weights:%s:%s:%d:list' % (fam, tag, i))
    # masks
    for tag, shape in (('A', (3,)), ('C', (3, 3))):
        X, y = integers('logistic', tag)
        M = np.ones(shape, int)
        M.flat[1] = 0
        if M.ndim == 2:
            M[-1, 2] = 0
        for pen in ('l1', 'l2'):
            def fit(mask):
                return zoo.observe(MaskedCoefLogisticRegression(
                    penalty=pen, C=3.).fit(X, y, coef_mask=mask),
                    'logistic', 3)
            ref = fit(M.astype(bool))
            for f, g in dict(
                    int=lambda m: m, float=lambda m: m.astype(float),
                    int8=lambda m: m.astype('i1'),
                    fortran=lambda m: np.asfortranarray(m.astype(bool)),
                    view=lambda m: view(m.astype(bool)),
                    negative=lambda m: neg(m.astype(bool)),
                    readonly=lambda m: ro(m.astype(bool))).items():
                same(ref, fit(g(M)), 'mask:%s:%s:%s' % (tag, pen, f))
    # stratification
    from sklearn.model_selection import train_test_split       # noqa: F401
    for name in ('lasso-cd', 'logistic', 'poisson'):
        fam = zoo.family(name)
        X, y = integers(fam, 'A')
        s = np.arange(len(y)) % 2 + 1

        def fit(st):
            est = zoo.make(name, 3)
            est.fit(X, y, stratify=st)
            return zoo.observe(est, fam, 3)
        ref = fit(s)
        for f, g in dict(list=lambda s: s.tolist(),
                         int8=lambda s: s.astype('i1'),
                         float=lambda s: s.astype(float),
                         readonly=ro, view=view, negative=neg,
                         tuple=lambda s: tuple(s.tolist())).items():
            same(ref, fit(g(s)), 'stratify:%s:%s' % (name, f))


def unit_lbfgs(rec):
    """Start points of every form and shape."""
    A = np.array([[3., 1, 0, 1], [1, 2, 0, 0], [0, 0, 1, .5], [1, 0, .5, 4]])
    b = np.array([1., -2, 3, .5])

    path = []

    def f(x, g):
        path.append(np.array(x))
        v = x.ravel()
        r = A.dot(v) - b
        g[...] = r.reshape(g.shape)
        return .5 * v.dot(A).dot(v) - b.dot(v)
    x0 = np.array([1., 0, -2, 3])
    forms = dict(fortran=np.asfortranarray, view=view, negative=neg,
                 readonly=ro, int=lambda x: x.astype(int),
                 int8=lambda x: x.astype('i1'),
                 float32=lambda x: x.astype('f4'),
                 big=lambda x: x.astype('>f8'), list=lambda x: x.tolist())
    for c in (0., .3):
        for shape in ((4,), (2, 2), (4, 1), (1, 4), (1, 2, 2)):
            del path[:]
            ref = np.array(fmin_lbfgs(f, x0.reshape(shape).copy(),
                                      orthantwise_c=c, epsilon=1e-8))
            want = list(path)[:3]
            for k, g in forms.items():
                rec.state(c, shape, k)
                rec.step()
                rec.trace()
                s = g(x0.reshape(shape))
                try:
                    del path[:]
                    got = np.array(fmin_lbfgs(f, s, orthantwise_c=c,
                                              epsilon=1e-8))
                except Exception as e:
                    # a list is not an array
                    rec.check(k == 'list', 'lbfgs-rejected:%s' % k,
                              'start point of shape %s as %s: %r'
                              % (shape, k, e))
                    continue
                rec.check(zoo.differ(want, path[:3], 1e-6, 1e-7) is None,
                          'lbfgs-path:%s' % k, 'start point of shape %s as '
                          '%s: evaluated at %s instead of %s'
                          % (shape, k, path[:3], want))
                rec.check(got.shape == shape and got.dtype == float
                          and np.allclose(got, ref, rtol=1e-4, atol=1e-4),
                          'lbfgs:%s:%s' % (k, shape),
                          'start point of shape %s as %s: %s instead of %s'
                          % (shape, k, got, ref))


def unit_functions(rec):
    """The stand-alone functions."""
    y = np.array([0., 1, 3, 2, 1])
    q = np.array([1., 1, 2, 3, 1])
    E = np.array([[1., 2, 0], [-3, 1, 5], [100, 0, 100], [0, 0, 0]])
    H = np.array([[1., 2, 0], [0, 1, 1]])
    G = np.array([[0., 1, 1], [2, 2, 1]])

    def same(ref, got, key):
        rec.step()
        rec.trace()
        rec.state(key)
        rec.check(zoo.differ(ref, got, 1e-5, 1e-6) is None,
                  'function:%s' % key, '%s: %s instead of %s'
                  % (key, got, ref))
    vec = dict(readonly=ro, view=view, negative=neg,
               int=lambda a: a.astype(int), int32=lambda a: a.astype('i4'),
               float32=lambda a: a.astype('f4'),
               big=lambda a: a.astype('>f8'))
    for model in ('normal', 'poisson'):
        ref = log_likelihood_glm(model, y, q)
        for k, g in vec.items():
            for l, h in vec.items():
                same(ref, log_likelihood_glm(model, g(y), h(q)),
                     'll:%s:%s:%s' % (model, k, l))
    mat = dict(vec, fortran=np.asfortranarray, padded=mixed)
    for k, g in mat.items():
        for ax in (0, 1, -1):
            same(softmax(E, axis=ax), softmax(g(E), axis=ax),
                 'softmax:%s:%d' % (k, ax))
        same(sigmoid(E), sigmoid(g(E)), 'sigmoid:%s' % k)
        for l, h in mat.items():
            same(dissimilarity(H, G), dissimilarity(g(H), h(G)),
                 'dissimilarity:%s:%s' % (k, l))
    for ll in (np.float64(-3), np.float32(-3), -3, np.int64(-3)):
        for nf in (2, 2., np.int8(2), np.float32(2)):
            for n in (9, 9., np.int8(9), np.uint8(9)):
                for f, args in ((AIC, (nf,)), (AICc, (nf, n)),
                                (BIC, (nf, n))):
                    want = f(-3., *(float(a) for a in args))
                    rec.step()
                    rec.trace()
                    rec.state(f.__name__, repr(ll), repr(nf), repr(n))
                    got = f(ll, *args)
                    rec.check(np.isclose(got, want, rtol=1e-5),
                              'criterion:%s' % f.__name__,
                              '%s%r is %r instead of %r' % (
                                  f.__name__, (ll,) + args, got, want))


def units(tier):
    out = [('args', unit_args, ()), ('lbfgs', unit_lbfgs, ()),
           ('functions', unit_functions, ())]
    for name in zoo.CONFIGS:
        fam = zoo.family(name)
        tags = ['A'] if tier == 'quick' else ['A', 'B', 'C']
        if fam == 'logistic' and 'C' not in tags:
            tags = tags + ['C']
        for tag in tags + ['Aq'] * (fam != 'nmf'):
            out.append(('%s-%s' % (name, tag), unit_fit,
                        (name, tag, tier != 'quick' or name in PAIRS
                         or tag == 'Aq' and fam == 'poisson')))
        for t in ('Al', 'Au'):
            if fam != 'nmf' or t == 'Au':
                out.append(('%s-%s' % (name, t), unit_fit,
                            (name, t, tier != 'quick')))
        if fam in ('linear', 'poisson', 'logistic'):
            out.append(('%s-S' % name, unit_fit, (name, 'S', False)))
    return out
