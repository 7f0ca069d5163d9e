"""C02: stability settings convert to bootstrap counts or are rejected."""
import itertools
from fractions import Fraction

import numpy as np

from mc.stubs import QUIET
from pyuoi.linear_model import UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic, \
    UoI_Poisson
from pyuoi.linear_model.utils import stability_selection_to_threshold as lin
from pyuoi.decomposition.utils import stability_selection_to_threshold as dec
from pyuoi.decomposition import UoI_CUR

PROPERTY = 'C02'
BOUNDS = {
    'quick': 'n_boots 1..64; integers -1..n+2; fractions k/n and k/(2n) with '
             'their float neighbours; lists and arrays of length <= 2 over '
             'the same alphabet (n <= 8); every other type once',
    'thorough': 'n_boots 1..300, lists of length <= 3 for n <= 6'}
ASSUMPTIONS = ['the truncated product is the double-precision product, '
               'truncated']


def want_one(s, n):
    """Expected count for a scalar, or None when it must be rejected."""
    v = s if isinstance(s, (int, np.integer)) else int(float(s) * n)
    return int(v) if 1 <= v <= n else None


def want_list(vals, n):
    out = [want_one(v, n) for v in vals]
    return None if any(o is None for o in out) else out


def call(f, s, n):
    try:
        return 'ok', f(s, n)
    except ValueError:
        return 'ValueError', None
    except Exception as e:
        return type(e).__name__, None


def judge(rec, key, s, n, got, want, scalar=False):
    rec.step()
    rec.trace()
    kind, val = got
    rec.state(key, n, None if want is None else list(np.atleast_1d(want)))
    if want is None:
        rec.check(kind == 'ValueError', key + ':accepts-invalid',
                  '%r of %d boots gave %s %r, expected ValueError'
                  % (s, n, kind, val), setting=s, n=n)
        return
    if not rec.check(kind == 'ok', key + ':rejects-valid',
                     '%r of %d boots raised %s, expected %s'
                     % (s, n, kind, want), setting=s, n=n):
        return
    flat = [int(v) for v in np.ravel(val)]
    exact = all(float(v) == int(v) for v in np.ravel(val))
    rec.check(exact and flat == list(np.atleast_1d(want)), key + ':value',
              '%r of %d boots gave %r, expected %s' % (s, n, val, want),
              setting=s, n=n)


def floats(n):
    out = set()
    for d in (n, 2 * n):
        for k in range(-1, d + 2):
            f = k / d
            out |= {f, float(np.nextafter(f, 9)), float(np.nextafter(f, -9))}
    out |= {0.5, 1.0, 0.1, 0.99, 1.0000001, 1.5, 2.0, 0.0}
    return sorted(out)


def unit_scalar(rec, lo, hi):
    for n in range(lo, hi):
        ints = list(range(-1, n + 3)) if n <= 64 else \
            [-1, 0, 1, 2, 126, 127, 128, 129, 255, 256, n - 1, n, n + 1]
        fl = floats(n) if n <= 64 else [0., 1. / n, .5, 1., 1.01, .999,
                                        (n - 1) / n]
        for s in ints + fl:
            w = want_one(s, n)
            judge(rec, 'linear:scalar', s, n, call(lin, s, n), w)
            judge(rec, 'decomposition:scalar', s, n, call(dec, s, n), w)
            judge(rec, 'linear:list1', [s], n, call(lin, [s], n), w)
            judge(rec, 'linear:array1', [s], n,
                  call(lin, np.array([s]), n), w)
    rec.sample(setting=s, n=n, counts=w)


def unit_lists(rec, n, ln):
    ints = list(range(0, n + 2))
    fl = sorted({0., 1., 1. / n, .5, (n - .5) / n, 1. + 1. / n,
                 float(np.nextafter(1., 0))})
    for alpha in (ints, fl):
        for vals in itertools.product(alpha, repeat=ln):
            w = want_list(vals, n)
            judge(rec, 'linear:list', list(vals), n,
                  call(lin, list(vals), n), w)
            arr = np.array(vals)
            keep = arr.copy()
            judge(rec, 'linear:array', list(vals), n, call(lin, arr, n), w)
            rec.check((arr == keep).all(), 'linear:array:mutated', '')
            if alpha is fl:
                a32 = np.array(vals, dtype=np.float32)
                kind, val = call(lin, a32, n)
                rec.check(kind in ('ok', 'ValueError'), 'linear:float32',
                          'float32 array raised %s' % kind)
            else:
                for dt in (np.int32, np.int8, np.uint8):
                    judge(rec, 'linear:array', list(vals), n,
                          call(lin, np.array(vals, dtype=dt), n), w)
    rec.sample(setting=list(vals), n=n, counts=w)


def unit_types(rec):
    bad_lin = ['all', None, {}, (1, 2), {1, 2}, [1, 0.5], [0.5, 1], ['a'],
               [None], np.array(['a']), np.array([None], dtype=object),
               1 + 2j, b'1', object(), np.array([1 + 2j])]
    bad_dec = ['all', None, {}, (1,), [1], [0.5], np.array([1]),
               np.array([.5]), 1 + 2j, object()]
    for n in (1, 4, 24):
        for s in bad_lin:
            judge(rec, 'linear:type', s, n, call(lin, s, n), None)
        for s in bad_dec:
            judge(rec, 'decomposition:type', s, n, call(dec, s, n), None)


def unit_models(rec, n):
    """The constructors obey the same rule."""
    X = np.random.RandomState(0).rand(12, 4)
    for cls in (UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic, UoI_Poisson):
        for s in list(range(-1, n + 3)) + floats(n) + ['x', None, (1,)]:
            w = want_one(s, n) if isinstance(s, (int, float)) else None

            def make(s, n):
                return cls(n_boots_sel=n, n_boots_est=n + 3,
                           stability_selection=s,
                           logger=QUIET).selection_thresholds_
            judge(rec, cls.__name__, s, n, call(make, s, n), w)
        for vals in ([1, n], [n, 1], [1., .5], np.array([1, n]),
                     np.array([1., 1. / n])):
            w = want_list(list(vals), n)

            def make(s, n):
                return cls(n_boots_sel=n, n_boots_est=n + 3,
                           stability_selection=s,
                           logger=QUIET).selection_thresholds_
            judge(rec, cls.__name__, vals, n, call(make, vals, n), w)
    for s in list(range(-1, n + 3)) + floats(n) + ['x', None, [1]]:
        w = want_one(s, n) if isinstance(s, (int, float)) else None

        def fit(s, n):
            UoI_CUR(n_boots=n, max_k=2, boots_frac=.9, random_state=1,
                    stability_selection=s).fit(X)
            return w
        judge(rec, 'UoI_CUR', s, n, call(fit, s, n), w)


def units(tier):
    big = tier == 'thorough'
    u = [('types', unit_types, ())]
    top = 301 if big else 65
    for lo in range(1, top, 8):
        u.append(('scalar-%03d' % lo, unit_scalar, (lo, min(lo + 8, top))))
    for n in (127, 128, 129, 255, 256, 257, 1000):
        u.append(('scalar-big-%d' % n, unit_scalar, (n, n + 1)))
    for n in range(1, 9):
        u.append(('lists-%d-2' % n, unit_lists, (n, 2)))
    for n in range(1, 7 if big else 4):
        u.append(('lists-%d-3' % n, unit_lists, (n, 3)))
    for n in (1, 2, 5) + ((10, 24) if big else ()):
        u.append(('models-%d' % n, unit_models, (n,)))
    return u
