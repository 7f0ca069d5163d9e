"""C01: candidate supports are exactly the stability intersections."""
import itertools

import numpy as np

from mc.dist import on_ranks
from mc.stubs import QUIET, SelLM, EstLM, StubLinear, ScriptedRS, design
from pyuoi.linear_model.utils import intersection
from pyuoi.linear_model import UoI_L1Logistic

PROPERTY = 'C01'
BOUNDS = {
    'quick': 'all 0/1 patterns with at most 10 cells (boots x settings x '
             'coefficients), all threshold lists of length <= 2; all '
             'end-to-end patterns of 2..3 boots x 1..2 settings x 1..2 '
             'features, also on 2 and 3 ranks; multi-class patterns of 12 '
             'cells; all one-place differences of sets of up to 129 features',
    'thorough': 'as quick with 14 cells, threshold lists of length <= 3, '
                'end-to-end patterns of 9 cells, multi-class of 16 cells'}
ASSUMPTIONS = ['values outside the alphabet {0, +-1, tiny, huge} behave like '
               'members of it (only x != 0 matters)']
VALS = [1., -2., 1e-300, -1e-9, 3e200, -1., 0.5, 7.]


def pattern(bits, shape):
    v = np.zeros(len(bits))
    for i, b in enumerate(bits):
        if b:
            v[i] = VALS[i % len(VALS)]
    # signs that cancel across bootstraps
    a = v.reshape(shape)
    for b in range(shape[0]):
        if b % 2:
            a[b] = -a[b - 1] * (a[b] != 0) + (a[b - 1] == 0) * a[b]
    return a


def expected(coefs, thresholds, n_classes=1, shared=True):
    """Set of supports, computed with Python integers and sets."""
    out = set()
    B, R, C = coefs.shape
    for t in thresholds:
        for r in range(R):
            s = tuple(sum(1 for b in range(B) if coefs[b, r, c] != 0)
                      >= int(t) for c in range(C))
            if n_classes > 1 and shared:
                F = C // n_classes
                s = tuple(any(s[k * F + f] for k in range(n_classes))
                          for f in range(F))
            out.add(s)
    return out


def compare(rec, got, want, width, key, **data):
    got = np.asarray(got)
    ok = rec.check(got.dtype == bool and got.ndim == 2
                   and got.shape[1] == width, key + ':shape',
                   'supports have dtype %s shape %s, expected bool (*, %d)'
                   % (got.dtype, got.shape, width), **data)
    if not ok:
        return
    rows = [tuple(bool(v) for v in r) for r in got]
    rec.check(set(rows) == want, key + ':set',
              'supports %s, expected %s' % (sorted(set(rows)), sorted(want)),
              **data)
    rec.check(len(rows) == len(set(rows)), key + ':duplicates',
              'duplicate supports %s' % rows, **data)


def unit_helper(rec, B, R, C, maxlen):
    cells = B * R * C
    lists = [None]
    for ln in range(1, maxlen + 1):
        lists += list(itertools.product(range(1, B + 1), repeat=ln))
    for bits in itertools.product((0, 1), repeat=cells):
        a = pattern(bits, (B, R, C))
        a0 = a.copy()
        for th in lists:
            got = intersection(a, None if th is None else np.array(th))
            want = expected(a, [B] if th is None else th)
            rec.step()
            rec.trace()
            rec.state(want, np.shape(got))
            compare(rec, got, want, C, 'helper', coefs=a, thresholds=th)
        rec.check((a == a0).all(), 'helper:mutated', 'coefficients changed')
    rec.sample(coefs=a, thresholds=th, supports=sorted(want))


def unit_many(rec):
    """Large bootstrap counts: the count must not saturate or wrap."""
    for B in (1, 2, 100, 127, 128, 129, 255, 256, 257, 300):
        counts = sorted({c for c in (0, 1, 2, B // 2, B - 1, B, 126, 127, 128,
                                     129, 254, 255, 256, 257)
                         if 0 <= c <= B})
        for kind in ('first', 'last'):
            a = np.zeros((B, 1, len(counts)))
            for j, c in enumerate(counts):
                idx = slice(0, c) if kind == 'first' else slice(B - c, B)
                a[idx, 0, j] = -1.5
            for t in sorted({1, 2, B // 2, B - 1, B, 127, 128, 255, 256}):
                if not 1 <= t <= B:
                    continue
                got = intersection(a, np.array([t]))
                want = {tuple(c >= t for c in counts)}
                rec.step()
                rec.trace()
                rec.state(B, t, want)
                compare(rec, got, want, len(counts), 'many-boots', B=B, t=t)


def wide_rows(C):
    """Sets of features that differ in one place only."""
    rows = [np.zeros(C, int), np.ones(C, int)]
    for i in range(C):
        e = np.arange(C) == i
        rows += [1 * e, 1 - e, 1 * (np.arange(C) <= i)]
    rows += [1 * (np.arange(C) % q == 0) for q in (2, 3, 5)]
    return np.array(rows)


def unit_wide(rec, C):
    """Many features and many settings: no two sets may be confused."""
    rows = wide_rows(C)
    half = np.array([VALS[i % len(VALS)] for i in range(C)])
    a = np.array([rows * half, rows[:, ::-1] * half])
    for th in ([1], [2], [1, 2], [2, 1]):
        got = intersection(a, np.array(th))
        compare(rec, got, expected(a, th), C, 'wide', features=C,
                thresholds=th)
        rec.step()
        rec.trace()
        rec.state(C, tuple(th))
    for shared in (True, False):
        m = UoI_L1Logistic(n_boots_sel=1, shared_support=shared, logger=QUIET)
        m.output_dim = 3
        r = rows if C <= 33 else rows[:40]
        b = np.concatenate([r * half, np.roll(r, 1, 0) * half,
                            np.zeros(r.shape)], axis=1)[None]
        got = m.intersect(b, np.array([1]))
        compare(rec, got, expected(b, [1], 3, shared),
                C if shared else 3 * C, 'wide-multi', features=C)
        rec.step()
        rec.trace()


def unit_intersect(rec, B, R, K, F, shared, maxlen):
    """Multi-class supports through the model's own intersection step."""
    m = UoI_L1Logistic(n_boots_sel=B, shared_support=shared, logger=QUIET)
    m.output_dim = K
    lists = []
    for ln in range(1, maxlen + 1):
        lists += list(itertools.product(range(1, B + 1), repeat=ln))
    for bits in itertools.product((0, 1), repeat=B * R * K * F):
        a = pattern(bits, (B, R, K * F))
        for th in lists:
            got = m.intersect(a, np.array(th))
            want = expected(a, th, K, shared)
            rec.step()
            rec.trace()
            rec.state(want)
            compare(rec, got, want, F if shared else K * F, 'multiclass',
                    coefs=a, thresholds=th, classes=K, shared=shared)


def run_fit(a, stability, n=5, comm=None):
    """One end-to-end fit whose selection coefficients are `a`."""
    B, R, C = a.shape
    held = [(b,) for b in range(B)]
    index = {}
    for b in range(B):
        index[frozenset(range(n)) - {b}] = b

    def table(rows, params):
        return a[index[frozenset(rows)], params['alpha']]
    sel = SelLM(table)
    est = EstLM(lambda rows, cols: np.ones(len(cols)),
                lambda tr, cols, rows: np.arange(float(len(rows))))
    m = StubLinear(sel, est, R, n_boots_sel=B, n_boots_est=1,
                   selection_frac=1 - .5 / n, estimation_frac=0.5,
                   stability_selection=stability,
                   random_state=ScriptedRS(held), comm=comm)
    y = np.array([3., 1., 4., 1., 5., 9., 2., 6.])[:n]
    m.fit(design(n, C), y)
    return m


def unit_fit(rec, B, R, C):
    cells = B * R * C
    settings = [1.0, 1, [1, B], np.array([1. / B + 1e-9, 1.])]
    if B > 1:
        settings += [B - 1, [float(B - 1) / B + 1e-9]]
    for bits in itertools.product((0, 1), repeat=cells):
        a = pattern(bits, (B, R, C))
        for st in settings:
            m = run_fit(a, st)
            want = expected(a, thresholds_of(st, B))
            rec.step()
            rec.trace()
            rec.state(want)
            compare(rec, m.supports_, want, C, 'fit', coefs=a, stability=st)
            rec.check(m.n_supports_ == len(want), 'fit:n_supports',
                      'n_supports_ is %s' % m.n_supports_)
    rec.sample(coefs=a, stability=st, supports=sorted(want))


def thresholds_of(st, B):
    if isinstance(st, (list, np.ndarray)):
        return [int(s) if isinstance(s, (int, np.integer)) else int(s * B)
                for s in st]
    return [int(st * B) if isinstance(st, float) else st]


def unit_fit_ranks(rec, size, B, R, C):
    """The same on several ranks (fewer and more than bootstraps)."""
    settings = [1.0, [1, B]] + ([B - 1] if B > 2 else [])
    for bits in itertools.product((0, 1), repeat=B * R * C):
        a = pattern(bits, (B, R, C))
        for st in settings:
            ms = on_ranks(rec, size, lambda comm, r: run_fit(a, st, 5, comm))
            if ms is None:
                continue
            want = expected(a, thresholds_of(st, B))
            rec.step()
            rec.trace()
            rec.state(size, want)
            for m in ms:
                compare(rec, m.supports_, want, C, 'fit-ranks', coefs=a,
                        stability=st, ranks=size)
                rec.check(m.n_supports_ == len(want), 'fit-ranks:n_supports',
                          'n_supports_ is %s' % m.n_supports_)
    rec.sample(ranks=size, coefs=a, stability=st, supports=sorted(want))


def unit_fit_logistic(rec, B, R, K, F, shared):
    """End to end through the real classifier with a table-driven sweep."""
    n = 6 if K < 3 else 9
    y = np.arange(n) % max(K, 2)
    index = {frozenset(range(n)) - {b}: b for b in range(B)}
    cells = B * R * K * F
    for bits in itertools.product((0, 1), repeat=cells):
        a = pattern(bits, (B, R, K * F))

        class M(UoI_L1Logistic):
            def get_reg_params(self, X, y):
                return [dict(C=r) for r in range(R)]
        m = M(n_boots_sel=B, n_boots_est=1, stability_selection=[1, B],
              shared_support=shared, standardize=False, logger=QUIET,
              estimation_frac=0.5, selection_frac=1 - .5 / n,
              random_state=ScriptedRS([(b,) for b in range(B)]))
        m._selection_lm = SelLM(
            lambda rows, params: a[index[frozenset(rows)], params['C']],
            shape=(K, F))
        m._estimation_lm = _Lin(K)
        m.fit(design(n, F), y)
        want = expected(a, [1, B], K, shared)
        rec.step()
        rec.trace()
        rec.state(want)
        compare(rec, m.supports_, want, F if shared else K * F,
                'fit-logistic', coefs=a, shared=shared)


class _Lin(object):
    """Estimation stand-in for classifiers; constant prediction."""
    def __init__(self, K):
        self.K = K
        self.intercept_ = np.zeros(1)

    def fit(self, X, y, coef_mask=None):
        self.coef_ = np.zeros((self.K, X.shape[1]))

    def predict(self, X):
        return np.zeros(X.shape[0], dtype=int)

    def predict_proba(self, X):
        k = max(self.K, 2)
        return np.full((X.shape[0], k), 1. / k)


def units(tier):
    big = tier == 'thorough'
    cap = 14 if big else 10
    u = []
    for B in range(1, 6):
        for R in range(1, 5):
            for C in range(1, 5):
                if B * R * C <= cap:
                    u.append(('helper-%d-%d-%d' % (B, R, C), unit_helper,
                              (B, R, C, 3 if big and B * R * C <= 10 else
                               2 if B * R * C <= 9 else 1)))
    u.append(('many-boots', unit_many, ()))
    for C in (8, 9, 16, 17, 31, 32, 33, 53, 54, 63, 64, 65, 129) + (
            (255, 256, 257, 300) if big else ()):
        u.append(('wide-%d' % C, unit_wide, (C,)))
    cap = 16 if big else 12
    for B, R, K, F in [(1, 1, 3, 1), (2, 1, 3, 1), (2, 1, 3, 2), (2, 2, 3, 1),
                       (3, 1, 2, 2), (1, 2, 3, 2), (2, 1, 2, 3),
                       (1, 1, 4, 3), (2, 1, 4, 2), (4, 1, 2, 2),
                       (3, 1, 3, 1), (2, 2, 2, 2)]:
        if B * R * K * F <= cap:
            for sh in (True, False):
                u.append(('intersect-%d-%d-%d-%d-%d' % (B, R, K, F, sh),
                          unit_intersect,
                          (B, R, K, F, sh, 2 if B * R * K * F <= 10 else 1)))
    cap = 9 if big else 8
    for B in (1, 2, 3, 4):
        for R in (1, 2, 3):
            for C in (1, 2, 3):
                if B * R * C <= cap:
                    u.append(('fit-%d-%d-%d' % (B, R, C), unit_fit,
                              (B, R, C)))
    for B, R, K, F in [(1, 1, 1, 2), (2, 1, 1, 2), (2, 2, 1, 1), (2, 1, 3, 1),
                       (1, 1, 3, 2), (2, 1, 3, 2)][:6 if big else 5]:
        for sh in (True, False):
            if K == 1 and not sh:
                continue
            u.append(('fitlog-%d-%d-%d-%d-%d' % (B, R, K, F, sh),
                      unit_fit_logistic, (B, R, K, F, sh)))
    for size, B, R, C in [(2, 1, 1, 2), (2, 2, 1, 2), (2, 2, 2, 1),
                          (2, 3, 1, 2), (3, 2, 1, 2), (3, 2, 2, 1)] + (
            [(2, 2, 2, 2), (3, 3, 1, 3), (4, 2, 2, 2), (3, 2, 3, 1)]
            if big else []):
        u.append(('ranks-%d-%d-%d-%d' % (size, B, R, C), unit_fit_ranks,
                  (size, B, R, C)))
    u.sort(key=lambda x: x[0])
    return u
