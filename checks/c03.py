"""C03: the final coefficients are the median of the best per-bootstrap
estimates."""
import itertools

import numpy as np
from sklearn.linear_model import LinearRegression

from mc.stubs import (QUIET, SelLM, EstLM, StubLinear, ScriptedRS, design,
                      rows_of)
from mc import refmodel as ref
from mc.dist import on_ranks
from pyuoi.linear_model import UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic, \
    UoI_Poisson

PROPERTY = 'C03'
BOUNDS = {
    'quick': 'all score tables over 3 levels for boots x supports <= 6, three '
             'model families, also on 2 and 3 ranks; reference-model '
             'lattice over real estimators, serially and on 2 and 5 ranks',
    'thorough': 'score tables up to 8 cells, larger lattice'}
ASSUMPTIONS = ['a support is scored through the predictions of the fitted '
               'inner model (C05 decides the score itself)']

N = 8


def supports_table(S, F):
    """S distinct nested/overlapping non-empty supports."""
    pats = [p for p in itertools.product((0, 1), repeat=F) if any(p)]
    return pats[:S]


def unit_scores(rec, family, E, S, F, with_empty, size=1,
                factors=(4., 2., 1.)):
    """Every table of score levels for E bootstraps and S supports."""
    pats = supports_table(S, F)
    regs = list(pats) + ([tuple([0] * F)] if with_empty else [])
    n = N
    nheld = 4
    y0 = np.array([3., 1., 4., 1., 5., 9., 2., 6.])
    if family == 'logistic':
        y0 = np.array([0, 1, 1, 0, 1, 0, 1, 0])
    if family == 'poisson':
        y0 = np.array([3., 1., 4., 1., 5., 9., 2., 6.])
    helds = [(0, 1, 2, 3), (4, 5, 6, 7), (0, 2, 4, 6), (1, 3, 5, 7)][:E]
    index = {frozenset(range(n)) - frozenset(h): b
             for b, h in enumerate(helds)}
    X = design(n, F)
    for levels in itertools.product(range(3), repeat=E * S):
        lev = {(b, s): levels[b * S + s]
               for b in range(E) for s in range(S)}

        def coef(rows, cols):
            b, s = index[frozenset(rows)], sup(cols)
            return [(-1) ** (b + c) * (1 + 10 * b + 100 * s + c)
                    for c in cols]

        def sup(cols):
            return pats.index(tuple(int(f in cols) for f in range(F)))

        def predict(rows, cols, at):
            b, s = index[frozenset(rows)], sup(cols)
            out = y0[list(at)].astype(float)
            lv = lev[b, s]
            if family == 'linear':
                return out + (2 - lv) * (np.arange(len(at)) % 2)
            if family == 'logistic':
                k = 2 - lv
                out[:k] = 1 - out[:k]
                return out.astype(int)
            return out * factors[lv]

        def fit(comm, rank):
            sel = SelLM(lambda rows, params: regs[
                int(params.get('alpha', params.get('C', 0)))],
                shape=(1, F) if family == 'logistic' else None)
            est = EstLM(coef, predict)
            kw = dict(n_boots_sel=1, n_boots_est=E, stability_selection=1,
                      selection_frac=1 - .5 / n, estimation_frac=.5,
                      random_state=ScriptedRS([(0,)] + helds),
                      standardize=False, comm=comm, logger=QUIET)
            if family == 'linear':
                m = StubLinear(sel, est, len(regs), **kw)
            else:
                cls = UoI_L1Logistic if family == 'logistic' else UoI_Poisson
                key = 'C' if family == 'logistic' else 'alpha'

                class M(cls):
                    def get_reg_params(self, X, y):
                        return [{key: r} for r in range(len(regs))]
                m = M(**kw)
                m._selection_lm, m._estimation_lm = sel, est
            return m.fit(X, y0)
        ms = on_ranks(rec, size, fit)
        if ms is None:
            continue
        m = ms[-1]
        rec.step(E * S)
        rec.trace()
        sups = [tuple(int(v) for v in r) for r in m.supports_]
        if not rec.check(sorted(sups) == sorted(set(regs)),
                         'supports', 'supports %s' % sups):
            continue
        est_, sc, ch = m.estimates_, m.scores_, np.asarray(m.rp_max_idx_)
        nS = len(sups)
        data = dict(levels=levels, family=family, ranks=size)
        if not rec.check(est_.shape == (E, nS, F) and sc.shape == (E, nS)
                         and ch.shape == (E,), 'shapes',
                         '%s %s %s' % (est_.shape, sc.shape, ch.shape),
                         **data):
            continue
        for b in range(E):
            for k, s in enumerate(sups):
                want = np.zeros(F)
                cols = [f for f in range(F) if s[f]]
                if cols:
                    want[cols] = coef(sorted(
                        set(range(n)) - set(helds[b])), cols)
                rec.check(np.array_equal(est_[b, k], want), 'estimates',
                          'bootstrap %d support %s recorded %s, fitted %s'
                          % (b, s, est_[b, k], want), **data)
            # higher level = higher recorded score, equal = equal
            for k1, s1 in enumerate(sups):
                for k2, s2 in enumerate(sups):
                    if any(s1) and any(s2):
                        l1, l2 = lev[b, pats.index(s1)], \
                            lev[b, pats.index(s2)]
                        if l1 > l2:
                            rec.check(sc[b, k1] > sc[b, k2], 'score-order',
                                      'level %d scored %r, level %d scored %r'
                                      % (l1, sc[b, k1], l2, sc[b, k2]),
                                      **data)
            rec.check(0 <= ch[b] < nS and
                      sc[b, ch[b]] >= np.max(sc[b]), 'choice',
                      'bootstrap %d: scores %s, chosen %d'
                      % (b, sc[b], ch[b]), **data)
        best = [[est_[b, ch[b], f] for b in range(E)] for f in range(F)]
        med = [ref.median(v) for v in best]
        got = np.ravel(m.coef_)
        rec.check(got.shape == (F,) and np.allclose(got, med, rtol=1e-12,
                                                    atol=0),
                  'median', 'coef_ %s, median of chosen estimates %s'
                  % (got, med), **data)
        rec.state(family, tuple(ch), med)
    rec.sample(family=family, levels=levels, chosen=ch, coef=med)


class Fits(object):
    def __init__(self, spies):
        self.fits = [f for s in spies for f in s.fits]


def unit_lattice(rec, cls, kw, data_id, frac, seeds, size=1):
    """Real estimators against the reference model of the whole algorithm."""
    for held_seed in range(seeds):
        got = on_ranks(rec, size, lambda comm, r: ref.fit_spied(
            cls, kw, data_id, frac, held_seed, comm=comm))
        if got is None:
            continue
        m, X, y, spy = got[-1]
        if size > 1:
            spy = {k: Fits([g[3][k] for g in got]) for k in spy}
        rec.step(m.n_boots_est * m.n_supports_)
        rec.trace()
        for key, msg in ref.check_estimation(m, X, y, spy):
            rec.fail(key, msg, model=cls.__name__, kw=kw, data=data_id)
        rec.state(cls.__name__, kw, data_id, m.supports_, m.rp_max_idx_)
    rec.sample(model=cls.__name__, kw=kw, supports=m.supports_,
               chosen=m.rp_max_idx_)


def units(tier):
    big = tier == 'thorough'
    u = []
    for fam in ('linear', 'logistic', 'poisson'):
        for E, S, F in [(1, 2, 2), (1, 3, 2), (2, 2, 2), (2, 3, 2),
                        (3, 2, 2), (4, 1, 2), (1, 5, 3), (3, 1, 1),
                        (2, 3, 3)] + ([(4, 2, 2), (1, 7, 3), (2, 4, 3),
                                       (3, 2, 3)] if big else []):
            for em in (0, 1):
                if E * S > 5 and em and not big:
                    continue
                u.append(('scores-%s-%d-%d-%d-%d' % (fam, E, S, F, em),
                          unit_scores, (fam, E, S, F, em)))
    # models whose mean overflows on the scored rows
    for E, S, F, em in [(1, 2, 2, 1), (2, 2, 2, 0), (2, 3, 2, 0)]:
        u.append(('overflow-%d-%d-%d-%d' % (E, S, F, em), unit_scores,
                  ('poisson', E, S, F, em, 1, (np.inf, 2., 1.))))
    for name, cls, kw in ref.lattice(big):
        for d in ref.datasets(cls, big):
            slow = name.startswith('log-')
            for frac in ((.8, .6), (.6, .8))[:1 if slow and not big else 2]:
                u.append(('lattice-%s-%s-%s' % (name, d, frac[0]),
                          unit_lattice, (cls, kw, d, frac,
                                        1 if slow and not big else 3)))
                if big or (d == ref.datasets(cls, big)[0] and frac[0] == .8):
                    for size in (2, 5):
                        u.append(('ranks-%s-%s-%s-%d' % (name, d, frac[0],
                                                         size), unit_lattice,
                                  (cls, kw, d, frac, 1, size)))
    # supports with more features than there are training rows
    for name, cls, kw in ref.lattice(big):
        if name in ('lasso-00-r2', 'lasso-11-r2', 'enet-01', 'enet-10'):
            u.append(('wide-' + name, unit_lattice,
                      (cls, dict(kw, stability_selection=[1, 2]), 'wide',
                       (.9, .5), 3)))
    for fam in ('linear', 'logistic', 'poisson'):
        for size, E, S, F in [(2, 1, 2, 2), (2, 2, 2, 2), (3, 1, 3, 2)] + (
                [(3, 2, 3, 2), (5, 2, 2, 2)] if big else []):
            u.append(('ranks-scores-%s-%d-%d-%d' % (fam, size, E, S),
                      unit_scores, (fam, E, S, F, 1, size)))
    return u
