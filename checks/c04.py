"""C04: resampling discipline."""
import itertools
from collections import Counter

import numpy as np
from sklearn.decomposition import TruncatedSVD

from mc.core import explore
from mc.dist import on_ranks
from mc.stubs import QUIET, SelLM, EstLM, StubLinear, ScriptedRS, design, \
    rows_of
from pyuoi.linear_model import UoI_L1Logistic, UoI_Poisson
from pyuoi.decomposition import UoI_CUR, UoI_NMF_Base, UoI_NMF

PROPERTY = 'C04'
TECHNIQUE = ('stateless exploration of every resampling outcome of the real '
             'fit under a controlled random stream, rows observed by '
             'coordinate-coded data')
BOUNDS = {
    'quick': 'every pair of held-out sets per bootstrap: n=5, 2+2 bootstraps '
             '(held out 2 / 2 and 1 / 2), all score targets and families; '
             'sizes n=4..12 x 5 fractions each; every stratified split of '
             'groups of 2-3; every bootstrap index table of NMF up to 729; '
             'the same discipline on 2, 3 and 5 ranks',
    'thorough': 'n=6, 2+2 and 3+1 bootstraps, sizes n=3..24 x 9 fractions'}
ASSUMPTIONS = ['splits are drawn through RandomState.permutation / randint']

FAMILIES = {
    'linear': [('r2', None), ('r2', 'train'), ('AIC', None), ('AICc', None),
               ('BIC', None), ('BIC', 'test')],
    'logistic': [('acc', None), ('acc', 'train'), ('log', None),
                 ('BIC', None), ('AIC', 'test'), ('AICc', None)],
    'poisson': [('log', None), ('log', 'train'), ('BIC', None),
                ('AIC', 'test'), ('AICc', None)]}
HELD = {'r2', 'acc', 'log'}


def run(family, score, target, n, F, B, E, rs, frac, R=2, stratify=None,
        comm=None):
    y = np.array([3., 1., 4., 2., 5., 9., 7., 6., 8., 10., 11., 12.] * 4)[:n]
    y = y + np.arange(n) * 13
    if family == 'logistic':
        y = (np.arange(n) % 2)
    regs = [[0] * F for _ in range(R)]
    for r in range(R):
        regs[r][r % F] = 1
    sel = SelLM(lambda rows, p: regs[int(p.get('alpha', p.get('C', 0)))],
                shape=(1, F) if family == 'logistic' else None)

    def predict(tr, cols, at):
        if family == 'poisson':
            return np.ones(len(at))
        if family == 'logistic':
            return np.arange(len(at)) % 2
        return np.arange(float(len(at)))
    est = EstLM(lambda rows, cols: np.ones(len(cols)), predict,
                (lambda at: np.tile([.5, .5], (len(at), 1)))
                if family == 'logistic' else None)
    kw = dict(n_boots_sel=B, n_boots_est=E, stability_selection=[1],
              selection_frac=frac[0], estimation_frac=frac[1],
              estimation_score=score, estimation_target=target,
              random_state=rs, standardize=False, comm=comm, logger=QUIET)
    if family == 'linear':
        m = StubLinear(sel, est, R, **kw)
    else:
        cls = UoI_L1Logistic if family == 'logistic' else UoI_Poisson
        key = 'C' if family == 'logistic' else 'alpha'

        class M(cls):
            def get_reg_params(self, X, y):
                return [{key: r} for r in range(R)]
        m = M(**kw)
        m._selection_lm, m._estimation_lm = sel, est
    m.fit(design(n, F), y, stratify=stratify)
    return m, y, sel, est


def judge(rec, m, y, sel, est, n, F, B, E, R, frac, score, target, held,
          data):
    """Compare what the inner models saw with the discipline."""
    full = frozenset(range(n))
    per = {}
    for rows, cols, params, ys in sel.log:
        ok = rec.check(rows is not None and len(set(rows)) == len(rows),
                       'selection:rows', 'selection fit on rows %s'
                       % (rows,), **data)
        if not ok:
            return None
        rec.check(cols == tuple(range(F)), 'selection:columns',
                  'selection fit on columns %s' % (cols,), **data)
        rec.check(np.array_equal(ys, y[list(rows)]), 'selection:pairing',
                  'rows %s came with responses %s' % (rows, ys), **data)
        rec.check(abs(len(rows) - frac[0] * n) < 1 + 1e-9, 'selection:size',
                  '%d of %d rows for fraction %s' % (len(rows), n, frac[0]),
                  **data)
        k = params.get('alpha', params.get('C'))
        per.setdefault(k, Counter())[frozenset(rows)] += 1
    rec.check(sorted(per) == list(range(R)), 'selection:settings',
              'settings fitted: %s' % sorted(per), **data)
    first = per.get(0, Counter())
    rec.check(sum(first.values()) == B and
              all(per[k] == first for k in per), 'selection:shared',
              'settings of a bootstrap do not share its split: %s' % per,
              **data)
    per = {}
    for rows, cols, ys in est.log:
        ok = rec.check(rows is not None and len(set(rows)) == len(rows),
                       'estimation:rows', 'estimation fit on rows %s'
                       % (rows,), **data)
        if not ok:
            return None
        rec.check(np.array_equal(ys, y[list(rows)]), 'estimation:pairing',
                  'rows %s came with responses %s' % (rows, ys), **data)
        rec.check(abs(len(rows) - frac[1] * n) < 1 + 1e-9, 'estimation:size',
                  '%d of %d rows for fraction %s' % (len(rows), n, frac[1]),
                  **data)
        per.setdefault(cols, Counter())[frozenset(rows)] += 1
    second = per[sorted(per)[0]] if per else Counter()
    rec.check(len(per) == min(R, F) and sum(second.values()) == E and
              all(per[k] == second for k in per), 'estimation:shared',
              'supports of a bootstrap do not share its split: %s' % per,
              **data)
    if held is not None:
        rec.check(len(held) == B + E, 'draws',
                  '%d resamples were drawn for %d bootstraps'
                  % (len(held), B + E), **data)
        want = Counter(full - frozenset(h) for h in held)
        rec.check(first + second == want, 'splits',
                  'training sets %s, drawn %s' % (first + second, want),
                  **data)
    side = target or ('test' if score in HELD else 'train')
    rec.check(len(est.scored) >= len(est.log), 'scored:count',
              '%d fits, %d scores' % (len(est.log), len(est.scored)), **data)
    for tr, cols, at, cols2 in est.scored:
        want = full - frozenset(tr) if side == 'test' else frozenset(tr)
        rec.check(at is not None and frozenset(at) == want
                  and len(at) == len(want), 'scored:rows',
                  'trained on %s, scored on %s for target %s'
                  % (tr, at, side), **data)
        rec.check(cols2 == cols, 'scored:columns', '%s / %s' % (cols, cols2),
                  **data)
    return first, second


def unit_all(rec, family, score, target, n, frac, B, E, F=2, R=2,
             part=None):
    def one(ch):
        held = []

        def choose(i, size):
            k = sizes[0] if i < B else sizes[1]
            if size != n:
                return None
            opts = list(itertools.combinations(range(n), k))
            if i == 0 and part is not None:
                opts = [o for j, o in enumerate(opts) if j % 4 == part]
            h = opts[ch.pick(len(opts), 'held-out')]
            held.append(h)
            return h
        rs = ScriptedRS(chooser=choose)
        m, y, sel, est = run(family, score, target, n, F, B, E, rs, frac, R)
        rec.trace()
        judge(rec, m, y, sel, est, n, F, B, E, R, frac, score, target,
              held, dict(family=family, score=score, held=held))
        rec.state(family, score, target, held)
        if not rec.samples:
            rec.sample(family=family, score=score, held=held,
                       selection=[x[0] for x in sel.log],
                       estimation=[x[:2] for x in est.log])
    sizes = [int(np.ceil((1 - f) * n - 1e-9)) for f in frac]
    explore(one, rec)


def unit_sizes(rec, n, fracs):
    for f1, f2 in itertools.product(fracs, repeat=2):
        for family in FAMILIES:
            score, target = FAMILIES[family][0]
            for seed in range(2):
                rs = np.random.RandomState(seed)
                m, y, sel, est = run(family, score, target, n, 2, 3, 2, rs,
                                     (f1, f2))
                rec.step()
                rec.trace()
                out = judge(rec, m, y, sel, est, n, 2, 3, 2, 2, (f1, f2),
                            score, target, None,
                            dict(family=family, n=n, frac=(f1, f2)))
                if out is None:
                    continue
                rec.state(family, n, f1, f2, sorted(map(sorted, out[0])))
    rec.sample(n=n, frac=(f1, f2), training=[x[0] for x in sel.log])


class Merged(object):
    """The calls of the inner models of all ranks."""
    def __init__(self, models):
        self.log = [x for m in models for x in m.log]
        self.scored = [x for m in models for x in getattr(m, 'scored', [])]


def unit_ranks(rec, size, family, groups, B, E, frac, seeds):
    """The same discipline when the tasks are spread over ranks."""
    n = len(groups)
    strat = np.array(groups) if len(set(groups)) > 1 else None
    for score, target in FAMILIES[family]:
        for seed in range(seeds):
            res = on_ranks(rec, size, lambda comm, r: run(
                family, score, target, n, 2, B, E,
                np.random.RandomState(seed + 10 * r), frac,
                stratify=strat, comm=comm))
            if res is None:
                continue
            m, y = res[0][:2]
            sel, est = (Merged([x[i] for x in res]) for i in (2, 3))
            rec.step()
            rec.trace()
            data = dict(family=family, ranks=size, boots=(B, E),
                        groups=groups)
            out = judge(rec, m, y, sel, est, n, 2, B, E, 2, frac, score,
                        target, None, data)
            if out is None:
                continue
            for phase, c in zip(('selection', 'estimation'), out):
                for rows in c:
                    rec.state(size, family, groups, phase, sorted(rows))
                    if strat is not None:
                        groups_ok(rec, phase + ':stratify', rows, groups,
                                  frac, **{k: data[k] for k in
                                           ('family', 'ranks')})
    rec.sample(ranks=size, family=family, groups=groups)


class AllPerms(np.random.RandomState):
    """permutation(small int) is chosen by the explorer."""
    def __init__(self, ch):
        super().__init__(0)
        self.ch = ch

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            perms = list(itertools.permutations(range(x)))
            if len(perms) <= 6:
                return np.array(perms[self.ch.pick(len(perms), 'perm')],
                                dtype=int)
            return np.arange(x)
        return np.array(x)


def groups_ok(rec, key, rows, groups, frac, **data):
    """Group proportions are kept up to rounding."""
    groups = np.asarray(groups)
    got = groups[list(rows)]
    for g in np.unique(groups):
        tot = int((groups == g).sum())
        have = int((got == g).sum())
        rec.check(abs(have - tot * len(rows) / len(groups)) < 1 + 1e-9, key,
                  'group %s: %d of %d in %d of %d rows'
                  % (g, have, tot, len(rows), len(groups)), **data)


def unit_stratify(rec, family, groups, frac):
    n = len(groups)

    def one(ch):
        m, y, sel, est = run(family, FAMILIES[family][0][0], None, n, 2, 1, 1,
                             AllPerms(ch), frac, stratify=np.array(groups))
        rec.trace()
        out = judge(rec, m, y, sel, est, n, 2, 1, 1, 2, frac,
                    FAMILIES[family][0][0], None, None,
                    dict(family=family, groups=groups))
        if out is None:
            return
        for phase, c in zip(('selection', 'estimation'), out):
            for rows in c:
                rec.state(family, groups, phase, sorted(rows))
                groups_ok(rec, phase + ':stratify', rows, groups, frac,
                          family=family)
    explore(one, rec)
    rec.sample(groups=groups, family=family)


class Recorder(object):
    """Records the data of every TruncatedSVD fit."""
    def __enter__(self):
        self.seen = []
        self.depth = 0
        self.saved = (TruncatedSVD.fit, TruncatedSVD.fit_transform)

        def wrap(fn):
            def inner(obj, X, *a, **k):
                if self.depth == 0:
                    self.seen.append(np.array(X, copy=True))
                self.depth += 1
                try:
                    return fn(obj, X, *a, **k)
                finally:
                    self.depth -= 1
            return inner
        TruncatedSVD.fit = wrap(self.saved[0])
        TruncatedSVD.fit_transform = wrap(self.saved[1])
        return self

    def __exit__(self, *a):
        TruncatedSVD.fit, TruncatedSVD.fit_transform = self.saved


def unit_cur(rec, n, k_held, B, stratify):
    frac = 1 - (k_held - .5) / n if k_held else 1
    groups = None if not stratify else np.arange(n) % 2 + 1 if \
        stratify == 'mixed' else np.arange(n) * 2 // n + 1
    X = design(n, 4) + np.array([0, 3, 9, 4])

    def rows(a):
        return rows_of(a - np.array([0, 3, 9, 4]))

    def one(ch):
        held = []

        def choose(i, size):
            if size != n:
                return None
            opts = list(itertools.combinations(range(n), k_held))
            held.append(opts[ch.pick(len(opts), 'held-out')])
            return held[-1]
        rs = AllPerms(ch) if stratify else ScriptedRS(chooser=choose)
        with Recorder() as r:
            UoI_CUR(n_boots=B, max_k=2, boots_frac=frac, algorithm='arpack',
                    random_state=rs).fit(X, stratify=groups)
        rec.trace()
        if not r.seen:
            rec.note('svd-not-observed')
            return
        rec.check(len(r.seen) == B, 'cur:bootstraps',
                  '%d decompositions for %d bootstraps' % (len(r.seen), B))
        got = []
        for a in r.seen:
            rr = rows(a)
            ok = rec.check(rr is not None and len(set(rr)) == len(rr)
                           and len(rr) == n - k_held, 'cur:rows',
                           'decomposition of rows %s' % (rr,), held=held)
            if ok:
                got.append(frozenset(rr))
                if stratify:
                    groups_ok(rec, 'cur:stratify', rr, groups, frac)
        if not stratify and k_held:
            want = [frozenset(range(n)) - frozenset(h) for h in held]
            rec.check(Counter(got) == Counter(want), 'cur:splits',
                      'rows %s, drawn %s' % (got, want))
        rec.state('cur', n, k_held, B, stratify, [sorted(g) for g in got])
        if not rec.samples:
            rec.sample(cur=True, held=held, rows=[sorted(g) for g in got])
    explore(one, rec)


def unit_cur_seed(rec):
    """An integer seed must still give different resamples."""
    X = design(12, 4) + np.array([0, 3, 9, 4])
    with Recorder() as r:
        UoI_CUR(n_boots=6, max_k=2, boots_frac=.5, random_state=5).fit(X)
    rec.step()
    rec.trace()
    seen = {tuple(sorted(a[:, 0])) for a in r.seen}
    rec.state('cur-int', len(seen))
    if r.seen:
        rec.check(len(seen) > 1, 'cur:int-seed-identical-resamples',
                  'all 6 bootstraps of UoI_CUR(random_state=5) use the same '
                  'rows')
    rec.sample(distinct=len(seen))


class StubNMF(object):
    def __init__(self):
        self.log = []
        self.n_components = None

    def set_params(self, **kw):
        self.__dict__.update(kw)
        return self

    def fit(self, X, *a, **k):
        self.log.append((self.n_components, np.array(X, copy=True)))
        self.components_ = np.abs(np.eye(self.n_components, X.shape[1])) + \
            .01
        return self


class OneCluster(object):
    def fit_predict(self, H):
        return np.zeros(len(H), dtype=int)


class ChosenInts(np.random.RandomState):
    def __init__(self, ch):
        super().__init__(0)
        self.ch = ch

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if size is None:
            return lo + self.ch.pick(hi - lo)
        n = int(np.prod(size))
        return np.array([lo + self.ch.pick(hi - lo) for _ in range(n)],
                        dtype=dtype).reshape(size)


def unit_nmf(rec, n, B, ranks, cls):
    X = design(n, 3)
    used, outcomes = set(), set()

    def one(ch):
        nmf = StubNMF()
        m = cls(n_boots=B, ranks=ranks, nmf=nmf, cluster=OneCluster(),
                use_dissimilarity=B > 1,
                random_state=ChosenInts(ch), logger=QUIET)
        m.fit(X)
        rec.trace()
        per = {}
        for k, a in nmf.log:
            r = rows_of(a)
            if rec.check(r is not None and len(r) == n, 'nmf:rows',
                         'factorized rows %s' % (r,)):
                per.setdefault(k, []).append(tuple(r))
        ks = list(range(2, ranks + 1)) if isinstance(ranks, int) else \
            list(ranks)
        rec.check(sorted(per) == sorted(ks), 'nmf:ranks',
                  'ranks %s' % sorted(per))
        vals = [Counter(v) for v in per.values()]
        rec.check(all(v == vals[0] for v in vals) and
                  sum(vals[0].values()) == B, 'nmf:shared',
                  'ranks of a bootstrap do not share its resample: %s' % per)
        want = Counter()
        b = np.asarray(m.bootstraps_)
        if rec.check(b.shape == (B, n), 'nmf:recorded', 'bootstraps_ has '
                     'shape %s' % (b.shape,)):
            want = Counter(tuple(int(v) for v in row) for row in b)
            rec.check(want == vals[0], 'nmf:recorded',
                      'recorded %s, used %s' % (want, vals[0]))
        drawn = Counter(tuple(r) for r in np.array(ch.picks).reshape(-1, n)) \
            if len(ch.picks) == B * n else None
        if drawn is not None:
            rec.check(drawn == vals[0], 'nmf:drawn', 'drawn %s, used %s'
                      % (drawn, vals[0]))
        used.update(i for c in per.values() for r in c for i in r)
        outcomes.add(tuple(ch.picks))
        rec.state('nmf', n, B, ks, ch.picks)
        if not rec.samples:
            rec.sample(bootstraps=b, ranks=ks)
    explore(one, rec)
    if len(outcomes) > 1 and not rec.capped:
        rec.check(used == set(range(n)), 'nmf:reach', 'of %d rows only %s '
                  'are in any of the possible resamples' % (n, sorted(used)))


def units(tier):
    big = tier == 'thorough'
    u = []
    for fam, scores in FAMILIES.items():
        for i, (s, t) in enumerate(scores):
            name = '%s-%s-%s' % (fam, s, t)
            if i == 0:
                for part in range(4):
                    u.append(('all-%s-%d' % (name, part), unit_all,
                              (fam, s, t, 5, (.6, .6), 2, 2, 2, 2, part)))
                u.append(('all18-' + name, unit_all,
                          (fam, s, t, 5, (.8, .6), 2, 2)))
                u.append(('all3-' + name, unit_all,
                          (fam, s, t, 4, (.75, .5), 3, 2)))
            else:
                u.append(('one-' + name, unit_all,
                          (fam, s, t, 5, (.8, .6), 1, 2)))
                if big:
                    u.append(('all2-' + name, unit_all,
                              (fam, s, t, 5, (.8, .6), 2, 2)))
        if big:
            u.append(('all6-' + fam, unit_all,
                      (fam, scores[0][0], None, 6, (.5, 4 / 6.), 2, 1)))
            u.append(('all31-' + fam, unit_all,
                      (fam, scores[0][0], None, 5, (.8, .6), 3, 1, 3, 3)))
        for groups in ((1, 1, 2, 2, 1, 2), (1, 2, 1, 2), (1, 1, 1, 2, 2, 2),
                       (3, 1, 2, 3, 1, 2)):
            if len(groups) > 4 and len(set(groups)) < 3 and not big and \
                    fam != 'linear':
                continue
            for frac in ((.5, .5),):
                u.append(('stratify-%s-%s' % (fam, ''.join(map(str, groups))),
                          unit_stratify, (fam, groups, frac)))
    fr = (.3, .5, .6, .75, .9) if not big else (.2, .25, .3, .5, .6, .7, .75,
                                                .8, .9)
    for n in range(4, 25 if big else 13):
        u.append(('sizes-%02d' % n, unit_sizes,
                  (n, [f for f in fr if 2 <= n * f and n * (1 - f) >= 1.99])))
    for size in (1, 2, 6):
        for fam in FAMILIES:
            for groups in ((1,) * 6 + (2,) * 6, (1, 2) * 6,
                           (1,) * 4 + (3,) * 6 + (2,) * 2):
                for frac in ((.5, .5), (.5, .75), (.75, .5)):
                    u.append(('groups-%d-%s-%s-%s' % (
                        size, fam, ''.join(map(str, groups)), frac),
                        unit_ranks, (size, fam, groups, 3, 4, frac,
                                     4 if big else 1)))
    for size, B, E in [(2, 3, 2), (3, 2, 2), (5, 2, 1)] + (
            [(4, 5, 3), (7, 2, 3), (2, 1, 1)] if big else []):
        for fam in FAMILIES:
            for groups in ((1,) * 6, (1, 1, 2, 2, 1, 2), (3, 1, 2, 3, 1, 2)):
                u.append(('ranks-%d-%d-%d-%s-%s' % (
                    size, B, E, fam, ''.join(map(str, groups))), unit_ranks,
                    (size, fam, groups, B, E, (.5, .5), 8 if big else 3)))
            u.append(('ranks-%d-%d-%d-%s-uneven' % (size, B, E, fam),
                      unit_ranks, (size, fam, (1,) * 8, B, E, (.5, .75), 2)))
    for n, k, B in [(4, 1, 2), (5, 2, 2), (4, 1, 3), (5, 1, 2), (4, 0, 2),
                    (6, 3, 1)] + ([(5, 2, 3), (6, 2, 2)] if big else []):
        u.append(('cur-%d-%d-%d' % (n, k, B), unit_cur, (n, k, B, False)))
    for n, k, B in [(6, 2, 1), (6, 3, 1), (8, 4, 2)]:
        for order in ('mixed', 'sorted'):
            u.append(('cur-strat-%d-%d-%d-%s' % (n, k, B, order), unit_cur,
                      (n, k, B, order)))
    u.append(('cur-seed', unit_cur_seed, ()))
    for cls in (UoI_NMF_Base, UoI_NMF):
        for n, B, ranks in [(2, 2, 3), (2, 3, [2]), (3, 2, [3, 2]),
                            (3, 1, (2,))] if cls is UoI_NMF_Base or big else \
                [(2, 2, 3), (3, 2, [2])]:
            u.append(('nmf-%s-%d-%d-%s' % (cls.__name__, n, B, ranks),
                      unit_nmf, (n, B, ranks, cls)))
    return u
