"""Controlled environment for the UoI algorithm: scripted resampling and
table-driven inner models.

The design matrix of a stub run encodes its own coordinates
(`X[i, j] = (i + 1) + 1000 * (j + 1)`), so an inner model can tell from the
data it is given which rows and columns it sees.  Inner models answer from a
table keyed by what they saw, never by call order.
"""
import itertools
import logging

import numpy as np

from pyuoi.linear_model.base import (AbstractUoILinearRegressor,
                                     AbstractUoIGeneralizedLinearRegressor)

QUIET = logging.getLogger('verif-quiet')
QUIET.addHandler(logging.NullHandler())
QUIET.propagate = False


def design(n, p):
    return (np.arange(1, n + 1)[:, None]
            + 1000. * np.arange(1, p + 1)[None, :])


def rows_of(X):
    """Row ids seen in a (sub)design; None if a row mixes several samples."""
    r = np.asarray(X) % 1000 - 1
    if r.shape[1] == 0:
        return None
    if not (r == r[:, :1]).all():
        return None
    return tuple(int(v) for v in r[:, 0])


def cols_of(X):
    c = np.asarray(X) // 1000 - 1
    if c.shape[0] == 0 or not (c == c[:1]).all():
        return None
    return tuple(int(v) for v in c[0])


class ScriptedRS(np.random.RandomState):
    """Random stream whose permutations hold out a scripted set first."""

    def __init__(self, heldouts=(), chooser=None, seed=0):
        super().__init__(seed)
        self.script = list(heldouts)
        self.chooser = chooser
        self.calls = []

    def permutation(self, x):
        n = x if isinstance(x, (int, np.integer)) else len(x)
        i = len(self.calls)
        if self.chooser is not None:
            held = self.chooser(i, n)
        elif i < len(self.script):
            held = self.script[i]
        else:
            held = None
        if held is None:
            self.calls.append(None)
            return super().permutation(x)
        held = list(held)
        self.calls.append(tuple(held))
        perm = np.array(held + [k for k in range(n) if k not in held])
        return perm if isinstance(x, (int, np.integer)) \
            else np.asarray(x)[perm]


class Shared(object):
    """A copy of a stub answers from the same table into the same log."""

    def __deepcopy__(self, memo):
        new = object.__new__(type(self))
        vars(new).update(vars(self))
        if 'params' in vars(self):
            new.params = dict(self.params)
        return new

    def __sklearn_clone__(self):
        return self.__deepcopy__({})


class SelLM(Shared):
    """Selection model answering from `table(rows, params) -> coef`."""

    def __init__(self, table, shape=None):
        self.table = table
        self.params = {}
        self.log = []
        self.shape = shape

    def set_params(self, **kw):
        self.params.update(kw)
        return self

    def fit(self, X, y, *a, **k):
        X = np.asarray(X.todense()) if hasattr(X, 'todense') else X
        rows = rows_of(X)
        self.log.append((rows, cols_of(X), dict(self.params),
                         np.array(y, copy=True)))
        c = np.array(self.table(rows, dict(self.params)), dtype=float)
        self.coef_ = c if self.shape is None else c.reshape(self.shape)
        self.intercept_ = np.zeros(1)
        return self


class EstLM(Shared):
    """Estimation model: coefficients and predictions from tables.

    `coef(rows, cols)`, `predict(train_rows, cols, rows)` and `proba(rows)`.
    """

    def __init__(self, coef, predict, proba=None):
        self._coef, self._predict, self._proba = coef, predict, proba
        self.log = []
        self.scored = []
        self.intercept_ = 0.

    def fit(self, X, y, *a, **k):
        X = np.asarray(X)
        self.rows, self.cols = rows_of(X), cols_of(X)
        self.log.append((self.rows, self.cols, np.array(y, copy=True)))
        self.coef_ = np.array(self._coef(self.rows, self.cols), dtype=float)
        return self

    def _p(self, X):
        X = np.asarray(X)
        r = rows_of(X)
        self.scored.append((self.rows, self.cols, r, cols_of(X)))
        return self._predict(self.rows, self.cols, r)

    predict = _p
    predict_mean = _p

    def predict_proba(self, X):
        got = self._p(X)
        return got if self._proba is None else self._proba(
            self.scored[-1][2])


class StubLinear(AbstractUoILinearRegressor):
    def __init__(self, sel, est, n_reg, **kw):
        kw.setdefault('standardize', False)
        kw.setdefault('logger', QUIET)
        super().__init__(**kw)
        self.n_reg = n_reg
        self._selection_lm = sel
        self._estimation_lm = est

    def get_reg_params(self, X, y):
        return [dict(alpha=r) for r in range(self.n_reg)]


def heldout_sets(n, k):
    return list(itertools.combinations(range(n), k))
