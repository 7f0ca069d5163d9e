"""C21: dataset generators follow their declared model."""
import itertools

import numpy as np

from mc.core import explore
from pyuoi.datasets import (make_linear_regression, make_classification,
                            make_poisson_regression, load_swimmer)

PROPERTY = 'C21'
TECHNIQUE = ('exhaustive enumeration of sizes, sparsity levels, flags and '
             'seeds, and of every outcome of the response draws under a '
             'scripted random stream, through the real generators')
BOUNDS = {
    'quick': '1-4 samples x 1-5 features x every informative count x 2-4 '
             'classes x flags x 6 seeds (plus 30 and 101 samples); every '
             'outcome of up to 5 response draws; 6 locations and scales, 4 '
             'noise ratios; both swimmer layouts',
    'thorough': '1-6 samples x 1-7 features x 2-6 classes x 20 seeds, every '
                'outcome of up to 7 draws'}
ASSUMPTIONS = ['responses are drawn with the binomial, multinomial, Poisson '
               'and normal methods of the given stream, sample by sample or '
               'at once',
               'a single feature cannot be normalized per sample, so '
               'classification starts at two']


class Tape(np.random.RandomState):
    """Response draws are answered by `answer(kind, parameters, n)`."""

    def __init__(self, seed, answer):
        super().__init__(seed)
        self.answer = answer
        self.asked = []

    def _each(self, kind, par, size, options):
        par = np.asarray(par, float)
        if size is not None:
            par = np.broadcast_to(par, size)
        out = np.zeros(par.shape, dtype=int)
        for i in np.ndindex(par.shape):
            v = self.answer(len(self.asked), options)
            self.asked.append((kind, float(par[i]), v))
            out[i] = v
        return out if out.shape else int(out)

    def binomial(self, n, p, size=None):
        return self._each('p', p, size, (0, 1))

    def poisson(self, lam=1., size=None):
        return self._each('rate', lam, size, (0, 1, 7))

    def multinomial(self, n, pvals, size=None):
        pvals = np.asarray(pvals, float)
        v = self.answer(len(self.asked), tuple(range(len(pvals))))
        self.asked.append(('p', pvals.copy(), v))
        out = np.zeros(len(pvals), dtype=int)
        out[v] = n
        return out

    def normal(self, loc=0., scale=1., size=None):
        out = super().normal(loc, scale, size)
        self.asked.append(('normal', float(np.mean(loc)),
                           (np.array(out) - loc) / scale
                           if np.all(scale) else np.zeros(np.shape(out))))
        return out


def softmax(Z):
    e = np.exp(Z - Z.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def check_class(rec, out, n, p, k, C, shared, icpt, msg):
    X, y, w, b = out
    rows = C if C > 2 else 1
    ok = rec.check(X.shape == (n, p) and np.shape(y) == (n,) and
                   w.shape == (rows, p) and np.shape(b) == (1, rows),
                   'class-shapes', '%s: %s %s %s %s' % (
                       msg, X.shape, np.shape(y), w.shape, np.shape(b)))
    rec.check(np.isfinite(X).all() and np.isfinite(w).all(), 'class-finite',
              '%s: X %s w %s' % (msg, X, w))
    y = np.asarray(y)
    rec.check(y.dtype.kind in 'iu' and y.min() >= 0 and y.max() < max(C, 2),
              'class-labels', '%s: labels %s' % (msg, y))
    nz = w != 0
    rec.check((nz.sum(1) == k).all(), 'class-informative',
              '%s: %s informative features' % (msg, nz.sum(1)))
    if shared:
        rec.check((nz == nz[0]).all(), 'class-shared',
                  '%s: supports %s' % (msg, nz))
    if not icpt:
        rec.check(not np.any(b), 'class-intercept', '%s: intercept %s'
                  % (msg, b))
    else:
        rec.check(np.any(b), 'class-intercept', '%s: intercept %s'
                  % (msg, b))
    return ok


def unit_class(rec, n, p, k, C, shared, icpt, seeds):
    differ = False
    for seed in range(seeds):
        kw = dict(n_samples=n, n_features=p, n_informative=k, n_classes=C,
                  shared_support=shared, include_intercept=icpt)
        out = make_classification(random_state=seed, **kw)
        msg = '%s seed %d' % (kw, seed)
        rec.step()
        rec.trace()
        rec.state('class', n, p, k, C, shared, icpt, seed)
        check_class(rec, out, n, p, k, C, shared, icpt, msg)
        if C > 2 and not shared and 0 < k < p:
            nz = out[2] != 0
            differ |= not (nz == nz[0]).all()
        # the scale of the coefficients
        big = make_classification(random_state=seed, w_scale=4., **kw)
        rec.check(np.allclose(big[2], 4 * out[2]) and
                  np.allclose(big[0], out[0]), 'class-scale',
                  '%s: w_scale=4 gave %s for %s' % (msg, big[2], out[2]))
        # any form of the same seed
        other = make_classification(
            random_state=np.random.RandomState(seed), **kw)
        rec.check(all(np.array_equal(a, b) for a, b in zip(out, other)),
                  'class-seed', '%s: a generator object gave other data'
                  % msg)
    if C > 2 and not shared and 0 < k < p and seeds >= 6 and p >= 3:
        rec.check(differ, 'class-independent-supports',
                  'supports of all classes agree for every seed')


def unit_class_draws(rec, n, p, k, C, shared, icpt, seed):
    """Every outcome of the label draws."""
    def run(ch):
        rs = Tape(seed, lambda i, opts: opts[ch.pick(len(opts))])
        X, y, w, b = make_classification(
            n_samples=n, n_features=p, n_informative=k, n_classes=C,
            shared_support=shared, include_intercept=icpt, random_state=rs)
        rec.trace()
        rec.state('draws', n, p, k, C, shared, icpt, seed, y)
        asked = [a for a in rs.asked if a[0] == 'p']
        if len(asked) != n:
            rec.note('draws-not-scripted')
            rec.check(not asked, 'class-draw-count', '%d draws for %d '
                      'samples' % (len(asked), n))
            return
        rec.check([a[2] for a in asked] == list(y), 'class-outcome',
                  'outcomes %s became labels %s'
                  % ([a[2] for a in asked], y))
        eta = X.dot(w.T) + b
        P = softmax(eta) if C > 2 else 1 / (1 + np.exp(-eta[:, 0]))
        rec.check(np.allclose([a[1] for a in asked], P, atol=1e-12),
                  'class-probabilities', 'labels drawn with %s instead of %s'
                  % ([a[1] for a in asked], P))
    explore(run, rec)


def check_reg(rec, out, n, p, k, icpt, key, msg):
    X, y, beta, b = out
    rec.check(X.shape == (n, p) and np.shape(y) == (n,) and
              beta.shape == (p,) and np.size(b) == 1, key + '-shapes',
              '%s: %s %s %s' % (msg, X.shape, np.shape(y), beta.shape))
    rec.check((beta != 0).sum() == k, key + '-informative',
              '%s: coefficients %s' % (msg, beta))
    rec.check((b != 0) if icpt else (b == 0), key + '-intercept',
              '%s: intercept %s' % (msg, b))


def unit_linear(rec, n, p, k, icpt, seeds):
    for seed in range(seeds):
        kw = dict(n_samples=n, n_features=p, n_informative=k,
                  include_intercept=icpt)
        out = make_linear_regression(random_state=seed, **kw)
        msg = '%s seed %d' % (kw, seed)
        rec.state('linear', n, p, k, icpt, seed)
        check_reg(rec, out, n, p, k, icpt, 'linear', msg)
        for lo, hi in ((1., 3.), (-2., -1.), (5., 5.5)):
            b = make_linear_regression(random_state=seed, beta_low=lo,
                                       beta_high=hi, **kw)
            v = b[2][b[2] != 0]
            rec.check(((lo <= v) & (v <= hi)).all() and len(v) == k,
                      'linear-range', '%s: coefficients %s outside %s'
                      % (msg, b[2], (lo, hi)))
            if icpt:
                rec.check(lo <= b[3] <= hi, 'linear-intercept-range',
                          '%s: intercept %s outside %s' % (msg, b[3],
                                                           (lo, hi)))
        given = np.arange(p) - 1.5
        base = None
        for loc, scale, snr in itertools.product((3., 0., -7.), (1., .25),
                                                 (5., .5, 1e6)):
            rs = Tape(seed, None)
            X, y, beta, b = make_linear_regression(
                random_state=rs, X_loc=loc, X_scale=scale, snr=snr,
                beta=given.copy(), **kw)
            rec.step()
            rec.trace()
            rec.check(np.array_equal(beta, given), 'linear-given',
                      '%s: given %s, returned %s' % (msg, given, beta))
            Z = (X - loc) / scale
            if base is None:
                base = Z
            rec.check(np.allclose(Z, base, atol=1e-9), 'linear-design',
                      '%s: location %s scale %s: design %s'
                      % (msg, loc, scale, X))
            eta = X.dot(beta) + b
            draws = [a for a in rs.asked if a[0] == 'normal' and
                     np.shape(a[2]) == (n,)]
            if draws and n > 1:
                want = eta + draws[-1][2] * np.sqrt(eta.var() / snr)
                rec.check(np.allclose(y, want, rtol=1e-9, atol=1e-9),
                          'linear-noise', '%s: noise ratio %s: responses %s '
                          'instead of %s' % (msg, snr, y, want))
            elif n > 1:
                rec.note('noise-not-scripted')
            else:
                rec.check(np.allclose(y, eta), 'linear-noise',
                          '%s: one sample has no variance, yet noise %s'
                          % (msg, y - eta))


def unit_poisson(rec, n, p, k, icpt, seeds):
    for seed in range(seeds):
        kw = dict(n_samples=n, n_features=p, n_informative=k,
                  include_intercept=icpt)
        out = make_poisson_regression(random_state=seed, **kw)
        msg = '%s seed %d' % (kw, seed)
        rec.state('poisson', n, p, k, icpt, seed)
        check_reg(rec, out, n, p, k, icpt, 'poisson', msg)
        rec.check(np.asarray(out[1]).dtype.kind in 'iu' and
                  (out[1] >= 0).all(), 'poisson-counts', '%s: counts %s'
                  % (msg, out[1]))
        rec.check((out[2] >= 0).all(), 'poisson-range',
                  '%s: coefficients %s' % (msg, out[2]))
        wide = make_poisson_regression(
            random_state=Tape(seed, lambda i, o: 1), beta_scale=6., **kw)
        rec.check(np.allclose(wide[2], 2 * out[2]), 'poisson-scale',
                  '%s: scale 6 gave %s for %s' % (msg, wide[2], out[2]))
        # every shape and scale of the coefficients: those of scale one,
        # times the scale
        for shape in (.5, 1., 2., 20.):
            ref = None
            for scale in (1., .01, 3., 11., 40.):
                rs = Tape(seed, lambda i, o: o[0])
                X, y, beta, b = make_poisson_regression(
                    random_state=rs, beta_shape=shape, beta_scale=scale,
                    X_scale=1e-3, **kw)
                rec.step()
                ref = ref or (beta, b)
                check_reg(rec, (X, y, beta, b), n, p, k, icpt, 'poisson',
                          '%s shape %s scale %s' % (msg, shape, scale))
                rec.check(np.allclose(beta, ref[0] * scale) and
                          np.allclose(b, ref[1] * scale), 'poisson-gamma',
                          '%s: shape %s: scale %s gave %s %s, scale 1 %s %s'
                          % (msg, shape, scale, beta, b, ref[0], ref[1]))
                check_rates(rec, rs, X, y, beta, b, n, msg)
        given = np.linspace(-1, 1, p)
        base = None
        for loc, scale in itertools.product((0., 2., -1.), (.125, .5)):
            rs = Tape(seed, lambda i, o: o[i % len(o)])
            X, y, beta, b = make_poisson_regression(
                random_state=rs, X_loc=loc, X_scale=scale, beta=given.copy(),
                **kw)
            rec.step()
            rec.trace()
            rec.check(np.array_equal(beta, given), 'poisson-given',
                      '%s: given %s, returned %s' % (msg, given, beta))
            Z = (X - loc) / scale
            if base is None:
                base = Z
            rec.check(np.allclose(Z, base, atol=1e-9), 'poisson-design',
                      '%s: location %s scale %s: design %s'
                      % (msg, loc, scale, X))
            check_rates(rec, rs, X, y, beta, b, n, msg)


def check_rates(rec, rs, X, y, beta, b, n, msg):
    asked = [a for a in rs.asked if a[0] == 'rate']
    if not asked:
        rec.note('draws-not-scripted')
        return
    rate = np.exp(X.dot(beta) + b)
    rec.check(len(asked) == n and np.allclose([a[1] for a in asked], rate),
              'poisson-rates', '%s: counts drawn with rates %s instead of %s'
              % (msg, [a[1] for a in asked], rate))
    rec.check([a[2] for a in asked] == list(y), 'poisson-outcome',
              '%s: outcomes %s became %s' % (msg, [a[2] for a in asked], y))


def unit_poisson_draws(rec, n, p, k, icpt, seed):
    def run(ch):
        rs = Tape(seed, lambda i, opts: opts[ch.pick(len(opts))])
        X, y, beta, b = make_poisson_regression(
            n_samples=n, n_features=p, n_informative=k,
            include_intercept=icpt, random_state=rs)
        rec.trace()
        rec.state('poisson-draws', n, p, k, icpt, seed, y)
        check_rates(rec, rs, X, y, beta, b, n, 'seed %d' % seed)
    explore(run, rec)


def unit_defaults(rec):
    """Default arguments, unseeded calls and independence of seeds."""
    for f, n, p in ((make_linear_regression, 100, 5),
                    (make_poisson_regression, 100, 5)):
        a, b = f(), f()
        check_reg(rec, a, n, p, 2, False, 'default', f.__name__)
        rec.check(not np.array_equal(a[0], b[0]), 'unseeded',
                  '%s() gave the same data twice' % f.__name__)
        s = [f(random_state=i) for i in range(8)]
        sup = {tuple(v[2] != 0) for v in s}
        rec.check(len(sup) > 1, 'supports-vary', '%s: the same features for '
                  'every seed' % f.__name__)
        rec.step(10)
    a, b = make_classification(), make_classification()
    check_class(rec, a, 100, 20, 2, 2, False, False, 'defaults')
    rec.check(not np.array_equal(a[0], b[0]), 'unseeded',
              'make_classification() gave the same data twice')
    for C in (2, 3):
        sup = {tuple(np.ravel(make_classification(
            random_state=i, n_classes=C)[2] != 0)) for i in range(8)}
        rec.check(len(sup) > 1, 'supports-vary', 'make_classification: the '
                  'same features for every seed')
        rec.step(8)
    rec.state('defaults')
    rec.trace(28)


def unit_swimmer(rec):
    flat, img = load_swimmer(), load_swimmer(flatten=False)
    rec.step(4)
    rec.trace(4)
    rec.check(flat.shape == (256, 1024), 'swimmer-shape', str(flat.shape))
    rec.check(img.shape == (32, 32, 256), 'swimmer-shape', str(img.shape))
    rec.check(np.array_equal(load_swimmer(True), flat), 'swimmer-flat', '')
    for i in range(256):
        a = flat[i].reshape(32, 32)
        b = img[:, :, i]
        rec.state('swimmer', i, a)
        rec.check(np.array_equal(a, b) or np.array_equal(a, b.T),
                  'swimmer-content', 'image %d differs between layouts' % i)
    rec.check(len(np.unique(flat, axis=0)) == 256, 'swimmer-distinct',
              'images repeat')
    rec.check(flat.dtype.kind == 'f' and (flat >= 0).all(), 'swimmer-values',
              str(flat.dtype))
    # every image: one torso and four limbs, each limb in four positions
    torso = flat.min(0) == flat.max()
    limb = (flat == flat.max()) & ~torso
    rec.check(torso.any() and len(set(limb.sum(1))) <= 4, 'swimmer-parts',
              'limb sizes %s' % sorted(set(limb.sum(1))))


def units(tier):
    big = tier == 'thorough'
    u = []
    ns = (1, 2, 3, 4, 30, 101) if not big else (1, 2, 3, 4, 5, 6, 30, 101)
    P = 5 if not big else 7
    seeds = 6 if not big else 20
    for p in range(1, P + 1):
        for k in range(p + 1):
            for icpt in (False, True):
                for n in ns:
                    for f in (unit_linear, unit_poisson):
                        u.append(('%s-%d-%d-%d-%d' % (
                            f.__name__[5:], n, p, k, icpt), f,
                            (n, p, k, icpt, seeds)))
                    if p < 2:
                        continue
                    for C in range(2, 5 if not big else 7):
                        for sh in (False, True):
                            u.append(('class-%d-%d-%d-%d-%d-%d' % (
                                n, p, k, C, sh, icpt), unit_class,
                                (n, p, k, C, sh, icpt, seeds)))
                    if n <= (5 if big else 4):
                        for C in (2, 3, 4):
                            if C ** n > (1100 if big else 300):
                                continue
                            for sh in ((False, True) if C > 2 else (False,)):
                                u.append(('class-draws-%d-%d-%d-%d-%d-%d' % (
                                    n, p, k, C, sh, icpt), unit_class_draws,
                                    (n, p, k, C, sh, icpt, n + k)))
                        u.append(('poisson-draws-%d-%d-%d-%d' % (
                            n, p, k, icpt), unit_poisson_draws,
                            (n, p, k, icpt, k)))
    u.append(('defaults', unit_defaults, ()))
    u.append(('swimmer', unit_swimmer, ()))
    return u
