"""C18: UoI NMF keeps the most reproducible rank and its consensus bases."""
import itertools

import numpy as np
from sklearn.base import BaseEstimator
from sklearn.cluster import DBSCAN, AgglomerativeClustering
from sklearn.decomposition import NMF as SkNMF
from sklearn.linear_model import LinearRegression
import scipy.optimize as spo

from mc.stubs import QUIET
from pyuoi.decomposition import UoI_NMF
from pyuoi.decomposition.NMF import UoI_NMF_Base

PROPERTY = 'C18'
TECHNIQUE = ('exhaustive enumeration of every table of factorizer answers, '
             'every cluster labelling and every resample through the real '
             'fit with table-driven factorizer and clusterer, against a '
             'direct reference of the algorithm')
BOUNDS = {
    'quick': 'all tables of 5 basis sets per (bootstrap, rank) for 2 ranks x '
             '2 bootstraps and 1 rank x 3, 4 for 2 ranks x 3 '
             'bootstraps, pooled and selected; all labellings of up to 6 '
             'bases with 4 labels; all pairs of resamples of 3 rows; 28 '
             'option combinations of the real factorizer and clusterer; all '
             'forms of the rank argument; bases of 6 sizes from 1e-100 to '
             '1e100, 81 pairs of almost equally reproducible ranks',
    'thorough': 'as quick with 5 basis sets for 2 ranks x 3 bootstraps, 4 '
                'for 3 ranks x 2, 6 for 1 rank x 4 and labellings of 8 bases'}
ASSUMPTIONS = ['a tie between ranks may be broken either way',
               'consensus bases may come in any order',
               'a clustering without any cluster is outside the property']

P = 3


def bases(k):
    """Basis sets of k rows over 3 features."""
    eye = np.eye(P)
    full = np.array([[1., 1, 0], [0, 2, 1], [3, 0, 1]])
    a = eye[:k]
    return [a,
            3. * a[::-1],                      # the same, permuted and scaled
            full[:k],
            np.vstack([full[1:k], np.zeros((1, P))]),     # with a zero basis
            np.tile([[1., 2., 2.]], (k, 1)),
            np.array([[.5, .5, 0], [0, .1, 4.], [1e-9, 0, 0]])[:k]]


class TableNMF(object):
    """Answers from table(k, j), j the number of the resample it sees in
    order of first appearance, or from rule(sample, k)."""

    def __init__(self, table=None, rule=None):
        self.table, self.rule = table, rule
        self.params, self.seen, self.log = {}, [], []

    def set_params(self, **kw):
        self.params.update(kw)
        return self

    def get_params(self, deep=True):
        return dict(self.params)

    def fit(self, X, y=None):
        X = np.asarray(X)
        k = self.params['n_components']
        key = X.tobytes()
        if key not in self.seen:
            self.seen.append(key)
        j = self.seen.index(key)
        self.log.append((k, j))
        self.components_ = np.array(self.table(k, j) if self.rule is None
                                    else self.rule(X, k), float)
        return self

    def fit_transform(self, X, y=None):
        self.fit(X)
        return np.ones((len(X), self.params['n_components']))


class TableCluster(object):
    def __init__(self, labels):
        self.labels = labels

    def fit(self, X, y=None):
        self.X = np.array(X)
        lab = self.labels(self.X) if callable(self.labels) else self.labels
        self.labels_ = np.array(lab)[:len(self.X)]
        return self

    def fit_predict(self, X, y=None):
        return self.fit(X).labels_


def unit_rows(H):
    H = np.asarray(H, float)
    H = H[H.sum(1) != 0]
    return H / np.sqrt((H ** 2).sum(1))[:, None]


def diss(A, B):
    """Dissimilarity of two basis sets, straight from its definition."""
    def norm(v):
        s = np.sqrt((v ** 2).sum())
        return v / s if s > 0 else v
    k = len(A)
    C = [[float(np.dot(norm(a), norm(b))) for b in B] for a in A]
    best_b = sum(max(C[i][j] for i in range(k)) for j in range(k))
    best_a = sum(max(C[i]) for i in range(k))
    return 1 - (best_a + best_b) / (2. * k)


def same_rows(a, b, tol=1e-8):
    """Equal as multisets of rows."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    left = list(range(len(b)))
    for r in a:
        d = [np.abs(r - b[i]).max() for i in left]
        if not d or min(d) > tol:
            return False
        left.pop(int(np.argmin(d)))
    return True


def reference(samples, ranks, n_boots, H, use_diss):
    """Possible pools of bases: [(rank or None, rows)], and dissimilarities;
    H[k][b] the bases of bootstrap b at rank k."""
    if not use_diss:
        return [(None, np.vstack([H[k][b] for k in ranks
                                  for b in range(n_boots)]))], None
    d = [np.mean([diss(H[k][a], H[k][b])
                  for a, b in itertools.combinations(range(n_boots), 2)])
         for k in ranks]
    return [(k, np.vstack(H[k])) for k, v in zip(ranks, d)
            if v <= min(d) + 1e-9], d


def check_fit(rec, m, X, ranks, n_boots, H, use_diss, key, msg, cons=None,
              cluster=None):
    """Everything a fit publishes against the bases H."""
    pools, d = reference(None, ranks, n_boots, H, use_diss)
    rec.step()
    rec.trace()
    if use_diss:
        got = np.asarray(m.dissimilarity_)
        rec.check(got.shape == (len(ranks),) and np.allclose(got, d,
                                                             atol=1e-9),
                  'dissimilarity:%s' % key, '%s: dissimilarities %s instead '
                  'of %s' % (msg, got, d))
    bs, lab = m.bases_samples_, np.asarray(m.bases_samples_labels_)
    ok = [k for k, rows in pools if same_rows(bs, unit_rows(rows))]
    rec.check(ok, 'pool:%s' % key, '%s: clustered bases %s, expected %s'
              % (msg, np.round(bs, 4).tolist(),
                 [np.round(unit_rows(r), 4).tolist() for _, r in pools]))
    if cluster is not None:
        rec.check(np.array_equal(cluster.X, bs) and
                  np.array_equal(cluster.labels_, lab), 'cluster:%s' % key,
                  '%s: published bases and labels are not those of the '
                  'clusterer' % msg)
    ids = [c for c in sorted(set(lab.tolist())) if c != -1]
    want = []
    for c in ids:
        v = (np.mean if cons is None else cons)(bs[lab == c], axis=0)
        want.append(v / np.sqrt((v ** 2).sum()))
    want = np.array(want).reshape(len(ids), X.shape[1])
    C = m.components_
    rec.check(same_rows(C, want), 'consensus:%s' % key,
              '%s, labels %s: components %s instead of %s'
              % (msg, lab.tolist(), np.round(C, 5).tolist(),
                 np.round(want, 5).tolist()))
    rec.check(np.all(np.asarray(C) >= 0) and
              np.allclose((np.asarray(C) ** 2).sum(1), 1),
              'unit-length', '%s: components %s' % (msg, C))
    rec.check(m.n_components == len(ids), 'n_components',
              '%s: n_components %s for %d clusters'
              % (msg, m.n_components, len(ids)))
    rec.state(key, ok[:1], np.round(want, 6))


def contents(m, X):
    return [X[np.asarray(r)].tobytes() for r in m.bootstraps_]


def distinct(n_boots, n=7):
    """A seed whose resamples of n rows all differ for any sane scheme is
    not needed: rows are distinct and seven of them rarely repeat."""
    return np.arange(1., n * P + 1).reshape(n, P) ** 1.3


def unit_tables(rec, ranks, n_boots, n_sets, use_diss, first, base):
    X = distinct(n_boots)
    slots = [(k, b) for k in ranks for b in range(n_boots)]
    sets = {k: bases(k)[:n_sets] for k in ranks}
    cls = UoI_NMF_Base if base else UoI_NMF
    for combo in itertools.product(range(n_sets), repeat=len(slots) - 1):
        pick = dict(zip(slots, (first,) + combo))
        nmf = TableNMF(lambda k, j: sets[k][pick[k, j]])
        cl = TableCluster(lambda Z: np.arange(len(Z)) % 2)
        m = cls(n_boots=n_boots, ranks=list(ranks), nmf=nmf, cluster=cl,
                use_dissimilarity=use_diss, random_state=3, logger=QUIET)
        m.fit(X)
        cont = contents(m, X)
        if len(set(cont)) != n_boots:
            rec.note('repeated-resamples')
            rec.capped = True
            return
        order = [nmf.seen.index(c) if c in nmf.seen else -1 for c in cont]
        rec.check(sorted(order) == list(range(n_boots)), 'resamples',
                  'bootstraps_ are not the data factorized')
        rec.check(sorted(nmf.log) == sorted(
            (k, j) for k in ranks for j in range(n_boots)), 'factorized',
            'factorizations (rank, bootstrap): %s' % nmf.log)
        H = {k: [sets[k][pick[k, j]] for j in order] for k in ranks}
        if not any(np.any(H[k][0]) for k in ranks):
            continue
        check_fit(rec, m, X, ranks, n_boots, H, use_diss, 'tables',
                  'ranks %s, basis sets %s' % (ranks, sorted(pick.items())),
                  cluster=cl)
    rec.sample(ranks=ranks, bootstraps=n_boots, last_table=sorted(
        pick.items()), components=m.components_)


def unit_labels(rec, ranks, n_boots, alphabet, head, cons):
    X = distinct(n_boots)
    k = ranks[0]
    B = [bases(k)[2] * (1 + b) + .3 * b * np.eye(P)[:k]
         for b in range(n_boots)]
    N = k * n_boots
    fn = dict(mean=None, median=np.median, max=np.max,
              own=lambda Z, axis: np.sort(Z, 1).sum(axis))[cons]
    for tail in itertools.product(alphabet, repeat=N - len(head)):
        labels = head + tail
        if set(labels) == {-1}:
            continue
        cl = TableCluster(labels)
        m = UoI_NMF(n_boots=n_boots, ranks=list(ranks), cluster=cl,
                    nmf=TableNMF(lambda k_, j: B[j]), random_state=3,
                    cons_meth=fn, logger=QUIET)
        m.fit(X)
        check_fit(rec, m, X, ranks, n_boots, {k: B}, True, 'labels',
                  'labels %s' % (labels,), cons=fn, cluster=cl)
    rec.sample(labels=labels, consensus=cons, components=m.components_)


class ResampleScript(np.random.RandomState):
    """Bootstrap draws are scripted, row by row of the table."""

    def __init__(self, rows):
        super().__init__(0)
        self.rows = [list(r) for r in rows]
        self.flat = [v for r in self.rows for v in r]
        self.i = 0

    def _take(self, size):
        n = int(np.prod(size)) if size is not None else 1
        v = np.array(self.flat[self.i:self.i + n])
        self.i += n
        return v.reshape(size) if size is not None else int(v[0])

    def randint(self, low, high=None, size=None, dtype=int):
        return self._take(size)

    def choice(self, a, size=None, replace=True, p=None):
        v = self._take(size)
        return v if isinstance(a, (int, np.integer)) else np.asarray(a)[v]


def unit_resamples(rec, first, n):
    """Every pair of resamples: the factorizer is given exactly those rows."""
    X = np.array([[1., 0, 2], [0, 3, 1], [4, 1, 0], [2., 2., .5]])[:n]

    def rule(S, k):
        return np.vstack([S.mean(0), S.max(0), S[0]])[:k]
    for second in itertools.product(range(n), repeat=n):
        rs = ResampleScript([first, second])
        nmf = TableNMF(rule=rule)
        cl = TableCluster(lambda Z: np.arange(len(Z)) % 3)
        m = UoI_NMF(n_boots=2, ranks=[2, 3], nmf=nmf, cluster=cl,
                    random_state=rs, logger=QUIET)
        m.fit(X)
        rec.check(np.array_equal(m.bootstraps_, [first, second]),
                  'bootstraps', 'draws %s became %s'
                  % ([first, second], m.bootstraps_))
        H = {k: [rule(X[list(r)], k) for r in m.bootstraps_]
             for k in (2, 3)}
        check_fit(rec, m, X, (2, 3), 2, H, True, 'resamples',
                  'resamples %s %s' % (first, second), cluster=cl)


def real_data():
    g = np.random.RandomState(2)
    H = np.array([[1., 1, 0, 0, 0], [0, 0, 1, .5, 0], [0, .3, 0, 1, 1]])
    return np.dot(g.rand(16, 3) ** 2, H) + .05 * g.rand(16, 5) + .01


NMF_OPTS = [dict(nmf_solver='mu', nmf_beta_loss=b, nmf_max_iter=mi,
                 nmf_tol=t)
            for b in ('kullback-leibler', 'frobenius', 'itakura-saito')
            for mi, t in ((30, 1e-4), (7, 1e-12), (200, .05))] \
    + [dict(nmf_solver='cd', nmf_beta_loss='frobenius', nmf_max_iter=mi,
            nmf_tol=t) for mi, t in ((60, 1e-4), (4, 1e-12), (200, .05))]
DB_OPTS = [dict(), dict(db_eps=.05), dict(db_eps=1.2),
           dict(db_min_samples=1, db_eps=.02), dict(db_min_samples=4),
           dict(db_metric='cosine', db_eps=.05, db_algorithm='brute'),
           dict(db_metric='manhattan', db_eps=.4),
           dict(db_metric='minkowski', db_metric_params=dict(p=1),
                db_eps=.4),
           dict(db_algorithm='kd_tree', db_leaf_size=2),
           dict(db_algorithm='ball_tree')]


def unit_real(rec, opts, init, use_diss, ranks, seed):
    """The keyword arguments reach the factorizer and the clusterer."""
    X = real_data()
    n_boots = 4
    kw = dict(n_boots=n_boots, ranks=ranks, nmf_init=init,
              use_dissimilarity=use_diss, random_state=seed, logger=QUIET)
    kw.update(opts)
    m = UoI_NMF(**kw)
    try:
        m.fit(X)
    except ValueError as e:
        if '0 sample' in str(e):
            rec.note('no-cluster')
            return
        raise
    rs = [2, 3] if ranks is None else list(ranks)
    if ranks is None:
        rs = list(range(2, X.shape[1]))
    full = dict(nmf_solver='mu', nmf_beta_loss='kullback-leibler',
                nmf_tol=1e-4, nmf_max_iter=400, db_eps=.5,
                db_min_samples=n_boots // 2, db_metric='euclidean',
                db_metric_params=None, db_algorithm='auto', db_leaf_size=30)
    full.update(opts)
    H = {k: [SkNMF(n_components=k, init=init, solver=full['nmf_solver'],
                   beta_loss=full['nmf_beta_loss'], tol=full['nmf_tol'],
                   max_iter=full['nmf_max_iter']).fit(
                       X[r]).components_ for r in m.bootstraps_] for k in rs}
    check_fit(rec, m, X, rs, n_boots, H, use_diss, 'real',
              'options %s' % opts)
    labels = DBSCAN(eps=full['db_eps'], min_samples=full['db_min_samples'],
                    metric=full['db_metric'],
                    metric_params=full['db_metric_params'],
                    algorithm=full['db_algorithm'],
                    leaf_size=full['db_leaf_size']).fit_predict(
                        m.bases_samples_)
    rec.check(np.array_equal(labels, m.bases_samples_labels_), 'real-labels',
              'options %s: labels %s instead of %s'
              % (opts, m.bases_samples_labels_, labels))


def unit_seeded(rec):
    """The seed also determines random starts of the factorizer."""
    X = real_data()
    for seed in range(4):
        nmf = SkNMF(init='random', solver='mu', max_iter=20)
        m = UoI_NMF_Base(n_boots=3, ranks=[2], nmf=nmf, random_state=seed,
                         cluster=DBSCAN(eps=2., min_samples=1), logger=QUIET)
        m.fit(X)
        a = m.components_
        m2 = UoI_NMF_Base(n_boots=3, ranks=[2], random_state=seed,
                          nmf=SkNMF(init='random', solver='mu', max_iter=20),
                          cluster=DBSCAN(eps=2., min_samples=1),
                          logger=QUIET)
        m2.fit(X)
        rec.step(2)
        rec.trace(2)
        rec.state(seed, a)
        rec.check(np.array_equal(a, m2.components_), 'seeded',
                  'seed %d gave two results' % seed)
    m = UoI_NMF_Base(n_boots=4, ranks=[2], random_state=0, logger=QUIET)
    m.fit(X)
    lab = DBSCAN(min_samples=2).fit_predict(m.bases_samples_)
    rec.check(np.array_equal(lab, m.bases_samples_labels_), 'default-cluster',
              'labels %s instead of %s' % (m.bases_samples_labels_, lab))


def unit_ranks(rec):
    """What the rank argument means."""
    X = real_data()
    forms = [(None, [2, 3, 4]), (2, [2]), (3, [2, 3]), (4, [2, 3, 4]),
             ([3], [3]), ([2, 4], [2, 4]), ((4, 2), [4, 2]),
             (range(1, 3), [1, 2]), (np.array([2, 3]), [2, 3]),
             ([1], [1])]
    for ranks, want in forms:
        for cls in (UoI_NMF, UoI_NMF_Base):
            for use in (True, False):
                def rule(S, k):
                    return np.vstack([S[i % len(S)] * (i + 1)
                                      for i in range(k)])
                nmf = TableNMF(rule=rule)
                cl = TableCluster(lambda Z: np.arange(len(Z)) % 2)
                m = cls(n_boots=2, ranks=ranks, nmf=nmf, cluster=cl,
                        use_dissimilarity=use, random_state=1, logger=QUIET)
                m.fit(X)
                rec.check(sorted(nmf.log) == sorted(
                    (k, j) for k in want for j in range(2)), 'ranks',
                    'ranks=%r factorized %s' % (ranks, nmf.log))
                H = {k: [rule(X[r], k) for r in m.bootstraps_]
                     for k in want}
                check_fit(rec, m, X, want, 2, H, use, 'ranks',
                          'ranks=%r' % (ranks,), cluster=cl)
    # a single bootstrap needs pooled ranks
    m = UoI_NMF(n_boots=1, ranks=[2, 3], use_dissimilarity=False,
                nmf=TableNMF(rule=rule), random_state=1, logger=QUIET,
                cluster=TableCluster([0, 1, 0, -1, 1]))
    m.fit(X)
    H = {k: [rule(X[m.bootstraps_[0]], k)] for k in (2, 3)}
    check_fit(rec, m, X, [2, 3], 1, H, False, 'ranks', 'one bootstrap')


def turned(k, angle):
    """k unit bases, the first turned by an angle towards the second."""
    H = np.eye(P)[:k].copy()
    H[0] = 0.
    H[0, 0], H[0, 1] = np.cos(angle), np.sin(angle)
    return H


ANGLES = (0., 1e-3, .01, .0101, .1, .1001, .101, .3, .5)
SCALES = (1., 1e-100, 1e-12, 1e-4, 1e6, 1e100)


def unit_close(rec, first):
    """Ranks that are almost equally reproducible, bases of every size."""
    X = distinct(2)

    def run(H, ranks, B, msg):
        nmf = TableNMF(lambda k, j: H[k][j])
        cl = TableCluster(lambda Z: np.arange(len(Z)) % 2)
        m = UoI_NMF(n_boots=B, ranks=list(ranks), nmf=nmf, cluster=cl,
                    use_dissimilarity=True, random_state=3, logger=QUIET)
        m.fit(X)
        order = [nmf.seen.index(c) for c in contents(m, X)]
        check_fit(rec, m, X, ranks, B, {k: [H[k][j] for j in order]
                                        for k in ranks}, True, 'close', msg,
                  cluster=cl)
    for second in ANGLES:
        for ranks in ((2, 3), (3, 2)):
            for s in SCALES[::2]:
                ang = dict(zip(ranks, (first, second)))
                H = {k: [turned(k, 0.) * s, turned(k, ang[k])]
                     for k in ranks}
                run(H, ranks, 2, 'angles %s scale %s' % (ang, s))
    if first == ANGLES[0]:
        for sc in itertools.product(SCALES, repeat=4):
            H = {2: [turned(2, .4) * np.array([[sc[0]], [sc[1]]]),
                     turned(2, 1.2) * np.array([[sc[2]], [sc[3]]])]}
            run(H, (2,), 2, 'scales %s' % (sc,))


class Regressor(BaseEstimator):
    def fit(self, A, b):
        self.coef_ = np.arange(A.shape[1]) + float(np.sum(b))
        return self


def unit_collaborators(rec):
    """The supplied objects are used, in every combination."""
    X = real_data()
    regs = {'default': None, 'callable': lambda A, b: A.T.dot(b) + 1.,
            'estimator': Regressor(),
            'sklearn': LinearRegression(fit_intercept=False, positive=True)}
    clusters = {'table': TableCluster(lambda Z: np.arange(len(Z)) % 2),
                'dbscan': DBSCAN(eps=1., min_samples=1),
                'agglomerative': AgglomerativeClustering(n_clusters=3)}
    conses = {'default': None, 'median': np.median, 'max': np.max,
              'first': lambda Z, axis=0: Z[0],
              'shifted': lambda Z, axis=0: Z.mean(axis=axis) + .25}
    for (rn, reg), (cn, cl), (sn, cons), cls in itertools.product(
            regs.items(), clusters.items(), conses.items(),
            (UoI_NMF, UoI_NMF_Base)):
        def rule(S, k):
            return np.vstack([S[i] for i in range(k)])
        m = cls(n_boots=3, ranks=[2, 3], nmf=TableNMF(rule=rule),
                cluster=cl, nnreg=reg, cons_meth=cons, random_state=5,
                logger=QUIET)
        W = m.fit_transform(X)
        H = {k: [rule(X[r], k) for r in m.bootstraps_] for k in (2, 3)}
        check_fit(rec, m, X, [2, 3], 3, H, True, 'collaborators',
                  '%s %s %s' % (rn, cn, sn), cons=cons)
        C = m.components_
        for i in range(0, len(X), 5):
            if rn == 'default' or rn == 'sklearn':
                want = spo.nnls(C.T, X[i])[0]
            elif rn == 'callable':
                want = C.dot(X[i]) + 1.
            else:
                want = np.arange(len(C)) + X[i].sum()
            ok = np.allclose(W[i], want, atol=1e-6) or (
                rn in ('default', 'sklearn') and
                np.allclose(W[i].dot(C), want.dot(C), atol=1e-6))
            rec.check(ok, 'regressor', '%s: weights %s instead of %s'
                      % (rn, W[i], want))
        if cn != 'table':
            lab = type(cl)(**cl.get_params()).fit_predict(m.bases_samples_)
            rec.check(np.array_equal(lab, m.bases_samples_labels_),
                      'clusterer', '%s: labels %s instead of %s'
                      % (cn, m.bases_samples_labels_, lab))


def units(tier):
    big = tier == 'thorough'
    u = []
    plans = [((2, 3), 2, 5), ((2,), 3, 5), ((2, 3), 3, 4), ((3, 1), 2, 4)]
    if big:
        plans = [((2, 3), 2, 6), ((2,), 3, 6), ((2, 3), 3, 5),
                 ((1, 2, 3), 2, 4), ((2,), 4, 6), ((3, 1), 3, 4),
                 ((3,), 4, 5)]
    for ranks, B, S in plans:
        for use in (True, False):
            for first in range(S):
                u.append(('tables-%s-%d-%d-%s-%d' % (
                    ''.join(map(str, ranks)), B, S, use, first), unit_tables,
                    (ranks, B, S, use, first, first % 2)))
    for cons in ('mean', 'median', 'max', 'own'):
        for k, B in ((1, 3), (2, 2), (3, 2)) + (((2, 4),) if big else ()):
            N = k * B
            al = (-1, 0, 1, 7) if N < 8 else (-1, 0, 1)
            if N > 5 and cons != 'mean':
                al = al[:3]
            for head in itertools.product(al, repeat=max(0, N - 5)):
                u.append(('labels-%s-%d-%d-%s' % (
                    cons, k, B, '.'.join(map(str, head))), unit_labels,
                    ((k,), B, al, head, cons)))
    for first in itertools.product(range(3), repeat=3):
        u.append(('resamples-%s' % ''.join(map(str, first)), unit_resamples,
                  (first, 3)))
    for i, o in enumerate(NMF_OPTS):
        for use in (True, False):
            u.append(('nmf-%d-%s' % (i, use), unit_real,
                      (o, 'nndsvda', use, [2, 3], 0)))
    for i, o in enumerate(DB_OPTS):
        u.append(('dbscan-%d' % i, unit_real, (o, 'nndsvda', True,
                                               [2, 3] if i else None, 0)))
        u.append(('dbscan-pool-%d' % i, unit_real, (o, 'nndsvd', False,
                                                    [2, 4], 1)))
    u.append(('seeded', unit_seeded, ()))
    u.append(('ranks', unit_ranks, ()))
    for a in ANGLES:
        u.append(('close-%g' % a, unit_close, (a,)))
    u.append(('collaborators', unit_collaborators, ()))
    return u
