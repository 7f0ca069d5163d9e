"""C17: column selection follows leverage scores and stability."""
import itertools

import numpy as np

from pyuoi.decomposition import CUR, UoI_CUR
from pyuoi.decomposition.utils import column_select

PROPERTY = 'C17'
TECHNIQUE = ('exhaustive enumeration of every uniform draw (just below and '
             'above its probability) and every resample through the real '
             'column selection and fits, against leverage scores of an exact '
             'SVD')
BOUNDS = {
    'quick': 'all draw patterns (5 values) of 4-5 columns x 9 singular bases '
             'x 5 counts x both orders; CUR: all keep/drop patterns of 4-5 '
             'columns x 5 matrices x ranks x counts x both algorithms; UoI '
             'CUR: all patterns of (bootstrap, rank, column) draws up to 12 '
             'draws x thresholds, all resample pairs of 5 rows; 60 valid and '
             'invalid rank / count options',
    'thorough': 'as quick with up to 16 draws and 3 bootstraps'}
ASSUMPTIONS = ['draws are made per bootstrap, rank and column in that order '
               'from the generator given',
               'singular vectors of the iterative solvers agree with the '
               'exact ones to 1%']


class Script(np.random.RandomState):
    """Uniform draws and permutations are scripted, the rest is not."""

    def __init__(self, draws=(), held=()):
        super().__init__(0)
        self.draws, self.i = list(draws), 0
        self.held, self.j = list(held), 0

    def _take(self, size):
        if size is None:
            v = self.draws[self.i]
            self.i += 1
            return v
        n = int(np.prod(size))
        v = np.array(self.draws[self.i:self.i + n], float).reshape(size)
        self.i += n
        return v

    def rand(self, *shape):
        return self._take(shape or None)

    def random_sample(self, size=None):
        return self._take(size)

    random = ranf = sample = random_sample

    def uniform(self, low=0., high=1., size=None):
        if low == 0. and high == 1.:
            return self._take(size)
        return super().uniform(low, high, size)

    def permutation(self, x):
        n = x if isinstance(x, (int, np.integer)) else len(x)
        if self.j >= len(self.held):
            return super().permutation(x)
        held = list(self.held[self.j])
        self.j += 1
        p = np.array(held + [i for i in range(n) if i not in held])
        return p if isinstance(x, (int, np.integer)) else np.asarray(x)[p]


def leverage(V, k):
    return (np.asarray(V)[:, :k] ** 2).sum(1) / k


def orthogonal():
    r = np.sqrt(.5)
    out = {
        'identity-1': np.eye(4)[:, :1], 'identity-2': np.eye(4)[:, :2],
        'identity-4': np.eye(4),
        'hadamard-1': np.ones((4, 1)) / 2.,
        'hadamard-2': np.array([[1, 1], [1, -1], [1, 1], [1, -1]]) / 2.,
        'rotated': np.array([[r, 0], [r, 0], [0, .6], [0, -.8]]),
        'zero-column': np.array([[.6, 0.], [0, 1.], [.8, 0.], [0, 0.]]),
        'generic-2': np.linalg.qr(np.vander([1., 2, 3, 5], 2))[0],
        'generic-3': np.linalg.qr(np.vander([1., 2, 3, 5, -1], 3))[0]}
    return out


def levels(p, exact):
    """Draws around the probability p: (value, kept); the boundary itself
    only where p is free of rounding."""
    out = {(0., p > 0), (.999, p > .999)}
    if 0 < p < 1:
        out |= {(p * (1 - 1e-7), True)}
    if p < 1:
        out |= {(min(p + 1e-7, .9999), False)}
    if p == 0 or exact and p < 1:
        out.add((p, False))
    return sorted(out)


def ordered(idx, pi, sort):
    idx = list(idx)
    if not sort:
        return idx == sorted(idx)
    return all(pi[a] <= pi[b] + 1e-12 for a, b in zip(idx, idx[1:]))


def unit_select(rec, name, c):
    V = orthogonal()[name]
    n, k = V.shape
    pi = leverage(V, k)
    p = np.minimum(1., c * pi)
    exact = name.startswith(('identity', 'hadamard'))
    grid = [levels(v, exact) for v in p]
    for combo in itertools.product(*grid):
        want = [i for i, (_, kept) in enumerate(combo) if kept]
        for sort in (False, True):
            rs = Script([u for u, _ in combo])
            got = column_select(V, c, leverage_sort=sort, random_state=rs)
            rec.step()
            rec.trace()
            rec.state(name, c, sort, want)
            rec.check(sorted(got) == want and len(got) == len(want),
                      'selected:%s' % name,
                      'leverages %s, count %s, draws %s: selected %s instead '
                      'of %s' % (pi, c, [u for u, _ in combo], list(got),
                                 want))
            rec.check(ordered(got, pi, sort), 'order:%s' % name,
                      'leverages %s: order %s' % (pi, list(got)))
            rec.check(rs.i == n, 'draws', '%d draws for %d columns'
                      % (rs.i, n))
    rec.sample(basis=name, count=c, leverage=pi, draws=[u for u, _ in combo],
               selected=want)


def matrices():
    g = np.random.RandomState(4)
    a = np.dot(g.randn(9, 2) * [5., 2.], g.randn(2, 4)) \
        + .05 * g.randn(9, 4)
    b = np.dot(g.randn(4, 2) * [5., 2.], g.randn(2, 5)) + .05 * g.randn(4, 5)
    z = a.copy()
    z[:, 2] = 0
    d = a.copy()
    d[:, 3] = d[:, 0]
    e = np.diag([9., 6., 3., 1.5])[:, [2, 0, 3, 1]]
    return dict(tall=a, wide=b, zero=z, duplicate=d, diagonal=e)


def pattern(bits, p):
    """Draws that keep exactly the columns with a 1, where possible."""
    u, kept = [], []
    for b, q in zip(bits, p):
        if b and q > 1e-9:
            u.append(.97 * q)
            kept.append(True)
        elif not b and q < .97:
            u.append(min(1.03 * q + 1e-4, .9999))
            kept.append(False)
        else:
            return None
    return u, kept


def exact_V(X):
    return np.linalg.svd(X, full_matrices=False)[2].T


def unit_cur(rec, name, alg):
    X = matrices()[name]
    n = X.shape[1]
    V = exact_V(X)
    Xnew = np.arange(3. * n).reshape(3, n)
    for k, c in itertools.product((1, 2) + ((3,) if name == 'diagonal'
                                            else ()),
                                  (None, 1, .5, 2., 3.5, 30)):
        if alg == 'arpack' and k >= min(X.shape):
            continue
        pi = leverage(V, k)
        p = np.minimum(1., (k + 20 if c is None else c) * pi)
        for bits in itertools.product((0, 1), repeat=n):
            pat = pattern(bits, p)
            if pat is None:
                continue
            u, kept = pat
            want = [i for i in range(n) if kept[i]]
            for via in ('fit', 'fit_transform'):
                m = CUR(max_k=k, algorithm=alg, random_state=Script(u))
                if via == 'fit':
                    m.fit(X, c=c)
                    new = m.transform(Xnew)
                    rec.check(np.array_equal(new, Xnew[:, m.column_indices_]),
                              'transform', 'transform gave %s' % new)
                else:
                    T = m.fit_transform(X, c=c)
                    rec.check(np.array_equal(T, X[:, m.column_indices_]),
                              'fit_transform', 'fit_transform gave other '
                              'columns than %s' % m.column_indices_)
                idx = list(m.column_indices_)
                rec.step()
                rec.trace()
                rec.state(name, k, c, alg, want)
                rec.check(sorted(idx) == want, 'cur:%s' % name,
                          '%s, rank %d, c=%s, draws %s, probabilities %s: '
                          'selected %s instead of %s'
                          % (name, k, c, u, p, idx, want))
                rec.check(all(pi[a] <= pi[b] * (1 + 1e-3) + 1e-9 for a, b in
                              zip(idx, idx[1:])), 'cur-order',
                          'leverages %s in order %s' % (pi, idx))
                rec.check(np.array_equal(m.components_, X[:, idx]),
                          'cur-components', 'components are other columns')


def check_uoi(rec, m, X, want, key, msg):
    idx = list(m.column_indices_)
    rec.step()
    rec.trace()
    rec.state(key, want, msg if len(msg) < 80 else '')
    rec.check(idx == want, 'uoi:%s' % key, '%s: selected %s instead of %s'
              % (msg, idx, want))
    rec.check(np.size(m.components_) == X.shape[0] * len(idx)
              and (not idx or np.array_equal(m.components_, X[:, idx])),
              'uoi-components', 'components are not columns %s' % idx)
    T = m.transform(X + 1)
    rec.check(np.array_equal(T, X[:, idx] + 1), 'uoi-transform',
              'transform is not columns %s' % idx)


def unit_uoi(rec, n_boots, ks, n_feat, thr, cs, head):
    """All draw patterns on all rows (a single SVD)."""
    X = matrices()['diagonal' if n_feat == 4 else 'tall'][:, :n_feat]
    if n_feat < 4:
        g = np.random.RandomState(8)
        X = np.dot(g.randn(7, n_feat), np.diag([3., 2., 1.][:n_feat])) \
            .dot(np.linalg.qr(g.randn(n_feat, n_feat))[0])
    V = exact_V(X)
    max_k = max(ks)
    p = [np.minimum(1., c * leverage(V, k)) for k, c in zip(ks, cs)]
    P = np.concatenate([q for _ in range(n_boots) for q in p])
    shape = (n_boots, len(ks), n_feat)
    t = int(thr * n_boots) if isinstance(thr, float) else thr
    for tail in itertools.product((0, 1), repeat=len(P) - len(head)):
        pat = pattern(head + tail, P)
        if pat is None:
            rec.note('impossible-patterns')
            continue
        u, kept = pat
        kept = np.array(kept).reshape(shape)
        want = [i for i in range(n_feat) if any(
            sum(kept[b, j, i] for b in range(n_boots)) >= t
            for j in range(len(ks)))]
        m = UoI_CUR(n_boots=n_boots, max_k=max_k, boots_frac=1,
                    stability_selection=thr, n_iter=3,
                    random_state=Script(u))
        m.fit(X, ks=list(ks), cs=list(cs))
        check_uoi(rec, m, X, want, 'patterns', 'ranks %s, threshold %s, kept '
                  '%s' % (ks, thr, kept.astype(int).tolist()))


def unit_resamples(rec, k, alg):
    """Every pair of training sets of 5 rows; the draws sit next to the
    probabilities of the resample they belong to."""
    g = np.random.RandomState(11)
    X = np.dot(g.randn(5, 3), np.diag([4., 1.5, .6])).dot(
        np.linalg.qr(g.randn(3, 3))[0]) + np.array([2., 0, 0])
    sets = list(itertools.combinations(range(5), 2))
    c = 1.2
    for a, b in itertools.product(sets, repeat=2):
        u, kept = [], []
        for i, held in enumerate((a, b)):
            rows = [r for r in range(5) if r not in held]
            p = np.minimum(1., c * leverage(exact_V(X[rows]), k))
            # alternately keep and drop, shifted by bootstrap
            bits = [(j + i + len(u)) % 2 for j in range(3)]
            v, w = [], []
            for bit, q in zip(bits, p):
                v.append(.97 * q if bit or q >= .97 else
                         min(1.03 * q + 1e-4, .9999))
                w.append(bool(bit or q >= .97))
            u += v
            kept.append(w)
        kept = np.array(kept)
        for t in (1, 2):
            m = UoI_CUR(n_boots=2, max_k=2, boots_frac=.6,
                        stability_selection=t, algorithm=alg, n_iter=7,
                        random_state=Script(u, [a, b]))
            m.fit(X, ks=k, cs=c)
            want = [i for i in range(3) if kept[:, i].sum() >= t]
            check_uoi(rec, m, X, want, 'resamples',
                      'held out %s and %s, threshold %d, rank %d'
                      % (a, b, t, k))


def unit_options(rec):
    """Which ranks and counts are accepted, and what they mean."""
    X = matrices()['tall']

    def outcome(**kw):
        m = UoI_CUR(n_boots=2, max_k=3, boots_frac=1, random_state=0)
        try:
            m.fit(X, **kw)
        except ValueError:
            return 'rejected'
        return m.check_ks_and_cs(**kw)
    good_ks = {1: [1], 3: [3], (2,): [2], (1, 3): [1, 3], (3, 1): [3, 1],
               None: [1, 2, 3]}
    for ks, want in good_ks.items():
        for form in (list, np.array):
            v = form(ks) if isinstance(ks, tuple) else ks
            n = len(want)
            for cs, cw in [(None, np.array(want) + 20), (2, [2.] * n),
                           (2.5, [2.5] * n), ([1.5] * n, [1.5] * n),
                           (np.array([3] * n), [3] * n), (.01, [.01] * n)]:
                out = outcome(ks=v, cs=cs)
                rec.step()
                rec.trace()
                rec.state('ok', ks, repr(cs))
                rec.check(out != 'rejected' and list(out[0]) == want
                          and np.allclose(out[1], cw) and
                          len(out[1]) == n, 'options',
                          'ranks %r and counts %r became %s' % (v, cs, out))
            for cs in (0, -1, 0., -2.5, [0.] * n, [1.] * (n + 1), [],
                       np.array([-1] * n), '2', {}, (2,) * (n + 2),
                       np.array(['a'] * n)):
                out = outcome(ks=v, cs=cs)
                rec.step()
                rec.state('bad-c', ks, repr(cs))
                rec.check(out == 'rejected', 'counts-accepted',
                          'ranks %r with counts %r were accepted: %s'
                          % (v, cs, out))
    for ks in (0, -1, 4, [0], [1, 4], [-2, 1], np.array([5]), [1.5], [1., 2.],
               np.array([1., 2.]), '1', {}, 2.0, (1, 2), ['a']):
        out = outcome(ks=ks)
        rec.step()
        rec.state('bad-k', repr(ks))
        rec.check(out == 'rejected', 'ranks-accepted',
                  'ranks %r were accepted: %s' % (ks, out))
    for cls, kw in ((CUR, {}), (UoI_CUR, dict(n_boots=2, boots_frac=1))):
        for k in (5, 20, 0, -1):
            try:
                cls(max_k=k, random_state=0, **kw).fit(X)
                rec.fail('ranks-accepted', '%s accepted max_k=%d for %s'
                         % (cls.__name__, k, X.shape))
            except ValueError:
                pass
            rec.step()
            rec.state('max_k', cls.__name__, k)
        for bad in (None,):
            try:
                cls(max_k=2, **kw).transform(X)
                rec.fail('unfitted', '%s transformed before fitting'
                         % cls.__name__)
            except Exception as e:
                rec.check(type(e).__name__ == 'NotFittedError', 'unfitted',
                          '%s: %r' % (cls.__name__, e))
            rec.step()


def units(tier):
    big = tier == 'thorough'
    u = []
    for name in orthogonal():
        for c in (.5, 1, 1.5, 2., 24):
            u.append(('select-%s-%s' % (name, c), unit_select, (name, c)))
    for name in matrices():
        for alg in ('randomized', 'arpack'):
            u.append(('cur-%s-%s' % (name, alg), unit_cur, (name, alg)))
    plans = [(2, (1,), 3, (1.2,)), (2, (1, 2), 3, (1.2, 1.4)),
             (2, (2, 1), 3, (1.4, 1.2)), (3, (2,), 3, (1.4,)),
             (3, (1,), 4, (.9,)), (1, (1, 2), 3, (1.2, 1.4))]
    if big:
        plans += [(3, (1, 2), 2, (1., 1.)), (2, (1, 2, 3), 2, (1., 1.1, 1.2)),
                  (4, (2,), 3, (1.4,)), (5, (1,), 3, (1.2,)),
                  (2, (1, 2), 4, (1.4, 1.8))]
    for B, ks, F, cs in plans:
        if max(ks) > F:
            continue
        for thr in list(range(1, B + 1)) + [1., .5]:
            if isinstance(thr, float) and int(thr * B) < 1:
                continue
            n = B * len(ks) * F
            split = max(0, n - 10)
            for head in itertools.product((0, 1), repeat=split):
                u.append(('uoi-%d-%s-%d-%s-%s' % (
                    B, ''.join(map(str, ks)), F, thr,
                    ''.join(map(str, head))), unit_uoi,
                    (B, ks, F, thr, cs, head)))
    for k in (1, 2):
        for alg in ('randomized', 'arpack'):
            u.append(('resamples-%d-%s' % (k, alg), unit_resamples, (k, alg)))
    u.append(('options', unit_options, ()))
    return u
