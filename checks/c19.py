"""C19: NMF weights are the best non-negative reconstruction."""
import itertools

import numpy as np
from sklearn.base import BaseEstimator

from checks.c18 import TableCluster, TableNMF
from mc.stubs import QUIET
from pyuoi.decomposition import UoI_NMF
from pyuoi.decomposition.NMF import UoI_NMF_Base

PROPERTY = 'C19'
TECHNIQUE = ('exhaustive enumeration of every data row and weight row of a '
             'lattice, every subset and order of rows and every sequence of '
             'transforms on the real model, against non-negative least '
             'squares by enumeration of all active sets')
BOUNDS = {
    'quick': 'rows over 4 values in 3 and 4 dimensions x 9 basis sets x 12 '
             'dtypes x 6 scales (1e-9 to 1e9); all subsets and permutations of 4 rows; weights over 4 '
             'values; all transform sequences up to length 3 over 4 '
             'operations; every shape up to 3 x 6',
    'thorough': 'rows over 6 values in 3 and 4 values in 4 and 5 dimensions, '
                'sequences up to length 5'}
ASSUMPTIONS = ['the regressor sees one row at a time',
               'weights are compared where the bases are independent, and '
               'reconstructions otherwise']


def unit(v):
    v = np.asarray(v, float)
    return v / np.sqrt((v ** 2).sum(-1, keepdims=True))


BASES = {
    'one': [[1., 2, 2]],
    'axes': [[1., 0, 0], [0, 1, 0]],
    'overlap': [[1., 1, 0], [0, 1, 1]],
    'three': [[1., 1, 0], [0, 1, 1], [1, 0, 1]],
    'skew': [[1., 1, 1], [1, 1, .5], [0, 0, 1]],
    'over': [[1., 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]],
    'four-2': [[1., 1, 0, 0], [0, 1, 1, 1]],
    'four-3': [[3., 1, 0, 1], [0, 1, 2, 0], [1, 0, 0, 1]],
    'five': [[1., 1, 0, 0, 2], [0, 1, 1, 0, 0], [0, 0, 0, 1, 1]],
}


def fitted(name, cls=UoI_NMF, **kw):
    """A model whose fit found exactly the given bases."""
    B = unit(BASES[name])
    k, p = B.shape
    X = np.arange(1., 5 * p + 1).reshape(5, p)
    m = cls(n_boots=2, ranks=[k], nmf=TableNMF(rule=lambda S, r: B),
            cluster=TableCluster(lambda Z: [int(np.argmin(
                np.abs(B - z).sum(1))) for z in Z]),
            random_state=0, logger=QUIET, **kw)
    m.fit(X)
    C = np.asarray(m.components_)
    assert C.shape == B.shape and np.allclose(
        sorted(C.tolist()), sorted(B.tolist())), 'setting up the bases'
    return m, C


def nnls(C, x):
    """Best weights of x on the rows of C, over all active sets."""
    k = len(C)
    best, arg = (x ** 2).sum(), np.zeros(k)
    for r in range(1, k + 1):
        for S in itertools.combinations(range(k), r):
            w = np.linalg.lstsq(C[list(S)].T, x, rcond=None)[0]
            if (w >= -1e-12).all():
                f = ((x - w.dot(C[list(S)])) ** 2).sum()
                if f < best - 1e-13:
                    best, arg = f, np.zeros(k)
                    arg[list(S)] = w
    return arg, best


def check_W(rec, W, C, X, key, msg):
    W = np.asarray(W)
    rec.step()
    if not rec.check(W.shape == (len(X), len(C)), 'shape:%s' % key,
                     '%s: weights of shape %s' % (msg, W.shape)):
        return
    rec.check((W >= 0).all(), 'negative:%s' % key, '%s: weights %s'
              % (msg, W))
    indep = np.linalg.matrix_rank(C) == len(C)
    for w, x in zip(W, X):
        rec.trace()
        want, best = nnls(C, np.asarray(x, float))
        f = ((x - w.dot(C)) ** 2).sum()
        rec.check(f <= best + 1e-9 * (1 + (np.asarray(x) ** 2).sum()),
                  'optimal:%s' % key, '%s: row %s got weights %s (residual '
                  '%g), but %s reaches %g' % (msg, x, w, f, want, best))
        if indep:
            rec.check(np.allclose(w, want, atol=1e-7 * (1 + np.abs(
                want).max())), 'weights:%s' % key, '%s: row %s got %s '
                'instead of %s' % (msg, x, w, want))


def check_err(rec, m, C, X, W, key, msg):
    err = np.sqrt(((np.asarray(X, float) - np.asarray(W).dot(C)) ** 2).sum())
    rec.check(np.allclose(m.reconstruction_err_, err, rtol=1e-9, atol=1e-9),
              'error:%s' % key, '%s: recorded error %s instead of %s'
              % (msg, m.reconstruction_err_, err))


def unit_rows(rec, name, values, first):
    m, C = fitted(name)
    p = C.shape[1]
    for rest in itertools.product(values, repeat=p - 1):
        x = np.array([(first,) + rest], float)
        W = m.transform(x)
        rec.state(name, x)
        check_W(rec, W, C, x, 'row', 'bases %s' % C.tolist())
        check_err(rec, m, C, x, W, 'row', 'row %s' % x)
    rec.sample(bases=C, row=x, weights=W)


DTYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
          'uint64', 'float32', 'float64', 'float16', 'bool']


def unit_dtypes(rec, name):
    m, C = fitted(name)
    p = C.shape[1]
    for dt in DTYPES:
        vals = (0, 1) if dt == 'bool' else (0, 1, 3)
        if dt in ('uint8', 'int8'):
            vals = (0, 1, 100)
        rows = list(itertools.product(vals, repeat=p))
        for X in (np.array(rows, dtype=dt), np.array(rows[::-1], dtype=dt),
                  np.asfortranarray(np.array(rows, dtype=dt)),
                  np.array([r for r in rows for _ in (0, 1)],
                           dtype=dt)[::2]):
            W = m.transform(X)
            rec.state(name, dt, X.flags.c_contiguous)
            check_W(rec, W, C, X.astype(float), 'dtype-%s' % dt, dt)
            check_err(rec, m, C, X, W, 'dtype-%s' % dt, dt)
            # and with integer weights back
            V = np.array([[i % 3] * len(C) for i in range(4)]).astype(dt)
            back = m.inverse_transform(V)
            rec.check(np.allclose(back, V.astype(float).dot(C), rtol=1e-6),
                      'inverse-dtype', '%s: %s' % (dt, back))


def unit_subsets(rec, name, cls):
    m, C = fitted(name, cls=cls)
    p = C.shape[1]
    g = np.random.RandomState(3)
    X = np.round(4 * g.rand(4, p), 1)
    X[3] = X[1]
    ref = m.transform(X)
    check_W(rec, ref, C, X, 'subsets', 'all rows')
    for r in range(0, 5):
        for order in itertools.permutations(range(4), r):
            if not order:
                continue
            idx = list(order)
            W = m.transform(X[idx])
            rec.step()
            rec.trace()
            rec.state(name, idx)
            rec.check(np.allclose(W, ref[idx], atol=1e-10), 'rows-mixed',
                      'rows %s: weights %s instead of %s'
                      % (idx, W, ref[idx]))
            check_err(rec, m, C, X[idx], W, 'subsets', 'rows %s' % idx)
    for size in (37, 300):
        many = np.vstack([X] * size)
        W = m.transform(many)
        rec.step()
        rec.trace()
        rec.check(np.allclose(W, np.vstack([ref] * size), atol=1e-10),
                  'many-rows', 'repeated rows get other weights')


def unit_inverse(rec, name, values):
    m, C = fitted(name)
    k = len(C)
    for w in itertools.product(values, repeat=k):
        W = np.array([w, w[::-1]], float)
        X = m.inverse_transform(W)
        rec.step()
        rec.trace()
        rec.state(name, w)
        rec.check(np.allclose(X, W.dot(C), atol=1e-12), 'inverse',
                  'weights %s: %s' % (W, X))
        if np.linalg.matrix_rank(C) == k and min(w) >= 0:
            back = m.transform(X)
            rec.check(np.allclose(back, W, atol=1e-8), 'round-trip',
                      'weights %s came back as %s' % (W, back))
            rec.check(m.reconstruction_err_ < 1e-8, 'round-trip-error',
                      'error %s' % m.reconstruction_err_)


def unit_scales(rec, name, scale):
    """The weights and errors of data in other units: nothing is absolute."""
    m, C = fitted(name)
    k, p = C.shape
    rows = np.array(list(itertools.product((0, 1, 3), repeat=p)), float)
    ref = np.array([nnls(C, x)[0] for x in rows])
    best = np.array([nnls(C, x)[1] for x in rows])
    indep = np.linalg.matrix_rank(C) == k
    for order in (slice(None), slice(None, None, -1)):
        X = rows[order] * scale
        for Z in [X] + [X[i:i + 1] for i in range(0, len(X), 2)] + \
                [X[i:i + 2] for i in range(1, len(X) - 1, 3)]:
            W = m.transform(Z)
            rec.step()
            rec.trace()
            rec.state(name, scale, Z)
            i = [int(np.argmin(np.abs(rows * scale - z).sum(1))) for z in Z]
            res = ((Z - W.dot(C)) ** 2).sum(1)
            top = (Z ** 2).sum(1)
            rec.check((W >= 0).all(), 'scale-negative', '%s' % W)
            rec.check((res <= best[i] * scale ** 2 + 1e-9 * top).all(),
                      'scale-optimal', 'scale %g rows %s: residuals %s, best '
                      '%s' % (scale, Z, res, best[i] * scale ** 2))
            if indep:
                rec.check(np.allclose(W, ref[i] * scale, rtol=1e-5,
                                      atol=1e-6 * scale), 'scale-weights',
                          'scale %g rows %s: weights %s, expected %s'
                          % (scale, Z, W, ref[i] * scale))
            err = np.sqrt(res.sum())
            rec.check(abs(m.reconstruction_err_ - err) <= 1e-6 * np.sqrt(
                top.sum()), 'scale-error', 'scale %g rows %s: error %r '
                'instead of %r' % (scale, Z, m.reconstruction_err_, err))


def answer(A, b):
    """Of any sign: a user's regressor is not held to the default's."""
    return (np.arange(1., np.shape(A)[1] + 1) - 1.5) * np.sum(b)


class Counting(BaseEstimator):
    def __init__(self):
        self.seen = []

    def fit(self, A, b):
        self.seen.append((np.array(A), np.array(b)))
        self.coef_ = answer(A, b)
        return self


def unit_regressors(rec, name):
    p = len(BASES[name][0])
    k = len(BASES[name])
    for values in ((0, 1), (0, 2), (1, 3)):
        X = np.array(list(itertools.product(values, repeat=p)), float)
        est = Counting()
        seen = []

        def fn(A, b):
            seen.append((np.array(A), np.array(b)))
            return answer(A, b)
        for reg, log in ((est, est.seen), (fn, seen)):
            for cls in (UoI_NMF, UoI_NMF_Base):
                m, C = fitted(name, nnreg=reg, cls=cls)
                del log[:]
                W = m.transform(X)
                rec.step()
                rec.trace()
                rec.state(name, values, cls.__name__, callable(reg))
                want = np.outer(X.sum(1), np.arange(1., k + 1) - 1.5)
                rec.check(np.allclose(W, want), 'regressor', 'weights %s '
                          'instead of the answers %s' % (W, want))
                rec.check(all(np.allclose(A, C.T) for A, _ in log),
                          'regressor-bases', 'regressor saw other bases')
                rec.check(np.allclose([b for _, b in log], X),
                          'regressor-rows', 'regressor saw other rows')
                check_err(rec, m, C, X, W, 'regressor', 'regressor')
                for bad in (np.ones((2, p + 1)), np.ones((2, p - 1))):
                    for quiet in (True, False):
                        try:
                            m.transform(bad, reconstruction_err=quiet)
                            rec.fail('regressor-shape', 'shape %s accepted'
                                     % (bad.shape,))
                        except ValueError:
                            pass


def unit_sequences(rec, name, depth, first):
    """Errors and weights belong to the last operation."""
    g = np.random.RandomState(8)
    p = len(BASES[name][0])
    Xs = [np.round(3 * g.rand(2, p), 1), np.round(5 * g.rand(3, p), 1)]
    ops = ['t0', 't1', 'quiet', 'inverse', 'reject', 'ft']
    for seq in itertools.product(ops, repeat=depth - 1):
        m, C = fitted(name)
        for i, op in enumerate((first,) + seq):
            before = m.reconstruction_err_
            rec.step()
            if op in ('t0', 't1'):
                X = Xs[int(op[1])]
                W = m.transform(X)
                check_W(rec, W, C, X, 'sequence', str(seq))
                check_err(rec, m, C, X, W, 'sequence', str(seq))
            elif op == 'quiet':
                W = m.transform(Xs[0], reconstruction_err=False)
                check_W(rec, W, C, Xs[0], 'sequence', str(seq))
                rec.check(m.reconstruction_err_ == before, 'quiet-error',
                          'error %s became %s' % (before,
                                                  m.reconstruction_err_))
            elif op == 'inverse':
                m.inverse_transform(np.ones((1, len(C))))
                rec.check(m.reconstruction_err_ == before, 'inverse-error',
                          'error %s became %s' % (before,
                                                  m.reconstruction_err_))
            elif op == 'reject':
                for bad in (np.ones((2, p + 1)), np.ones((2, p - 1))):
                    try:
                        m.transform(bad)
                        rec.fail('wrong-shape', 'shape %s accepted'
                                 % (bad.shape,))
                    except ValueError:
                        pass
                rec.check(m.reconstruction_err_ == before, 'reject-error',
                          'error %s became %s' % (before,
                                                  m.reconstruction_err_))
            else:
                X5 = np.arange(1., 5 * p + 1).reshape(5, p)
                W = m.fit_transform(X5)
                C = np.asarray(m.components_)
                check_W(rec, W, C, X5, 'sequence', str(seq))
                check_err(rec, m, C, X5, W, 'sequence', str(seq))
            rec.state(name, op, before, m.reconstruction_err_)
        rec.trace()


def unit_shapes(rec, name):
    m, C = fitted(name)
    k, p = C.shape
    for n, q in itertools.product(range(1, 4), range(1, 7)):
        for f, good in ((m.transform, q == p),
                        (m.inverse_transform, q == k)):
            rec.step()
            rec.trace()
            rec.state(name, n, q, good)
            try:
                out = f(np.ones((n, q)))
                rec.check(good, 'shape-accepted', '%s accepted %s with bases '
                          '%s' % (f.__name__, (n, q), C.shape))
                rec.check(np.shape(out) == (n, p + k - q), 'shape-result',
                          '%s of %s has shape %s' % (f.__name__, (n, q),
                                                     np.shape(out)))
            except ValueError:
                rec.check(not good, 'shape-rejected', '%s rejected %s with '
                          'bases %s' % (f.__name__, (n, q), C.shape))


def units(tier):
    big = tier == 'thorough'
    u = []
    for name, B in BASES.items():
        p = len(B[0])
        values = (0, .5, 1, 4) if p <= 4 else (0, 1)
        if big:
            values = (0, .25, 1, 2, 3, 100) if p == 3 else (0, .5, 1, 4)
        for v in values:
            u.append(('rows-%s-%s' % (name, v), unit_rows,
                      (name, values, v)))
        u.append(('dtypes-%s' % name, unit_dtypes, (name,)))
        for e in (-9, -5, -3, 4, 9):
            u.append(('scales-%s-%d' % (name, e), unit_scales,
                      (name, 10. ** e)))
        for cls in (UoI_NMF, UoI_NMF_Base):
            u.append(('subsets-%s-%s' % (name, cls.__name__), unit_subsets,
                      (name, cls)))
        u.append(('inverse-%s' % name, unit_inverse,
                  (name, (0, .5, 1, 3) + ((7., 1e-3, 50.) if big else ()))))
        u.append(('regressors-%s' % name, unit_regressors, (name,)))
        u.append(('shapes-%s' % name, unit_shapes, (name,)))
    for first in ('t0', 't1', 'quiet', 'inverse', 'reject', 'ft'):
        for name in ('overlap', 'four-3'):
            u.append(('sequences-%s-%s' % (name, first), unit_sequences,
                      (name, 5 if big else 3, first)))
    return u
