"""C23: likelihoods, information criteria and link functions are exact."""
import itertools
import math
from fractions import Fraction

import numpy as np

from pyuoi.decomposition.utils import dissimilarity
from pyuoi.utils import (AIC, AICc, BIC, log_likelihood_glm, sigmoid,
                         softmax)

PROPERTY = 'C23'
TECHNIQUE = ('exhaustive enumeration of argument lattices (including the '
             'extremes of the number range, every shape, axis and integer '
             'dtype) of the real functions, against exact rational or '
             'compensated reference evaluation and the algebraic laws')
BOUNDS = {
    'quick': 'Poisson: counts {0,1,2,7} x means over 8 values (to '
             'overflow), length 1-2 and 3 over 4; normal: 5 values, length 1-3; criteria: 9 '
             'likelihoods x 0-8 features x 1-12 samples; softmax: 9 values, '
             'length 1-4, all axes of 9 shapes; sigmoid: 1500 points; '
             'dissimilarity: all pairs of 2x2 (entries 0-2) and of 2x3 '
             'and 3x2 binary bases',
    'thorough': 'Poisson length 3 over 8 values, normal length 4, softmax '
                '13 values up to length 4, all pairs of 2x2 bases with '
                'entries 0-3, of 2x3 with entries 0-2 and of 3x3 binary'}
ASSUMPTIONS = ['likelihoods drop the constants the code documents (normal: '
               'variance at its optimum; Poisson: mean over the samples, '
               'without the factorial)',
               'bases of a norm below 1e-14 count as zero in the '
               'dissimilarity']


def close(got, want, tol=1e-10):
    if math.isnan(want):
        return math.isnan(got)
    if math.isinf(want):
        return got == want
    return abs(got - want) <= tol * (1 + abs(want))


# ------------------------------------------------------------- likelihoods
def poisson_ll(y, mu):
    tot = []
    for a, b in zip(y, mu):
        if b == math.inf:
            return -math.inf
        elif a == 0:
            tot.append(-b)
        elif b == 0:
            return -math.inf
        else:
            tot.append(a * math.log(b) - b)
    return math.fsum(tot) / len(y)


def unit_poisson(rec, n, first, means):
    for y in itertools.product((0., 1., 2., 7.), repeat=n):
        for rest in itertools.product(means, repeat=n - 1):
            mu = (first,) + rest
            rec.state(y, mu)
            rec.step()
            with np.errstate(all='ignore'):
                got = log_likelihood_glm('poisson', np.array(y),
                                         np.array(mu))
            want = poisson_ll(y, mu)
            rec.check(close(got, want), 'poisson', 'counts %s, means %s: %r '
                      'instead of %r' % (y, mu, got, want))
            if len(set(mu)) == 1:
                # one mean for all samples (as of a model without features)
                with np.errstate(all='ignore'):
                    for m in (mu[0], np.float64(mu[0]), np.array(mu[:1])):
                        rec.step()
                        rec.check(close(log_likelihood_glm(
                            'poisson', np.array(y), m), want),
                            'poisson-scalar', 'counts %s, mean %r'
                            % (y, m))
            if n > 1 and want > -math.inf:
                # order of the samples does not matter
                rec.check(close(log_likelihood_glm(
                    'poisson', np.array(y[::-1]), np.array(mu[::-1])), want),
                    'poisson-order', '%s %s' % (y, mu))
            rec.trace()
    rec.sample(counts=y, means=mu, value=want)


def normal_ll(y, q):
    rss = math.fsum((a - b) ** 2 for a, b in zip(y, q))
    n = len(y)
    if rss == 0:
        return math.inf
    return -n / 2. * (1 + math.log(rss / n))


def unit_normal(rec, n, values, first):
    for y in itertools.product(values, repeat=n):
        for rest in itertools.product(values, repeat=n - 1):
            q = (first,) + rest
            rec.state(y, q)
            rec.step()
            rec.trace()
            with np.errstate(all='ignore'):
                got = log_likelihood_glm('normal', np.array(y), np.array(q))
            want = normal_ll(y, q)
            rec.check(close(got, want), 'normal', 'responses %s, '
                      'predictions %s: %r instead of %r' % (y, q, got, want))
    rec.sample(responses=y, predictions=q, value=want)


def unit_models(rec):
    for name in ('Normal', 'gauss', '', None, 'binomial', 'poison', 1):
        rec.step()
        rec.trace()
        rec.state(name)
        try:
            got = log_likelihood_glm(name, np.ones(2), np.ones(2))
        except ValueError:
            continue
        rec.fail('model', 'unknown model %r gives %r' % (name, got))
    for dt in ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8'):
        for du in ('i4', 'u1', 'u8', 'f8', 'f4'):
            for y, q in (((0, 3, 1), (2, 1, 1)), ((1, 1, 2), (3, 4, 5)),
                         ((5, 0, 0), (1, 2, 3)), ((127, 0, 9), (1, 99, 3))):
                a, b = np.array(y, dt), np.array(q, du)
                rec.state(dt, du, y, q)
                for model, f in (('normal', normal_ll),
                                 ('poisson', poisson_ll)):
                    rec.step()
                    rec.trace()
                    got = log_likelihood_glm(model, a, b)
                    rec.check(close(got, f(y, q), 1e-5),
                              'dtype:%s' % model, '%s of %s %s and %s %s: %r '
                              'instead of %r' % (model, dt, y, du, q, got,
                                                 f(y, q)))


# ---------------------------------------------------------------- criteria
LLS = (0., -1., -12.5, 3.25, -1e6, 1e9, -math.inf, math.inf, 1e-12)


def unit_criteria(rec):
    for ll in LLS:
        for k in range(9):
            aic = 2 * k - 2 * ll
            rec.step()
            rec.check(close(AIC(ll, k), aic, 1e-13), 'AIC',
                      'AIC(%r, %r) is %r' % (ll, k, AIC(ll, k)))
            for n in range(1, 13):
                rec.state(ll, k, n)
                rec.trace()
                rec.step()
                want = aic
                if n > k + 1:
                    want = aic + float(Fraction(2 * k * k + 2 * k,
                                                n - k - 1))
                got = AICc(ll, k, n)
                rec.check(close(got, want, 1e-13), 'AICc', 'AICc(%r, %r, %r)'
                          ' is %r instead of %r' % (ll, k, n, got, want))
                want = k * math.log(n) - 2 * ll
                got = BIC(ll, k, n)
                rec.check(close(got, want, 1e-13), 'BIC', 'BIC(%r, %r, %r) '
                          'is %r instead of %r' % (ll, k, n, got, want))
    # arrays of likelihoods
    a = np.array(LLS)
    for f, args in ((AIC, (3,)), (AICc, (3, 9)), (AICc, (3, 4)),
                    (BIC, (3, 9))):
        before = a.copy()
        got = f(a, *args)
        rec.step()
        rec.check(np.array_equal(a, before), 'criteria-input',
                  '%s changes its argument' % f.__name__)
        rec.check(all(close(g, float(f(x, *args))) for g, x in zip(got, a)),
                  'criteria-array', '%s of an array' % f.__name__)
    for n in (10, 1000, 10 ** 6, 10 ** 9):
        for k in (0, 1, 50, 999, 10 ** 5):
            want = 2. * k - 6. + (
                float(Fraction(2 * k * k + 2 * k, n - k - 1))
                if n > k + 1 else 0.)
            rec.step()
            rec.trace()
            rec.state('large', n, k)
            rec.check(close(AICc(3., k, n), want, 1e-12), 'AICc-large',
                      'AICc(3, %d, %d)' % (k, n))
    rec.sample(likelihood=-1., features=2, samples=9, AICc=AICc(-1., 2, 9))


# ------------------------------------------------------------------- links
def ref_softmax(v):
    m = max(v)
    e = [math.exp(float(Fraction(x) - Fraction(m))
                  if abs(Fraction(x) - Fraction(m)) < 10 ** 300
                  else -math.inf) for x in v]
    s = math.fsum(e)
    return [x / s for x in e]


SOFT = (0., 1., -1., 30., -745., 1000., -1e308, 1.7e308, 1e-300)
SOFT_T = SOFT + (710., -1000., 5e-324, 88.)


def check_soft(rec, got, v, key):
    got = np.asarray(got, float).ravel()
    want = ref_softmax(v)
    return rec.check(
        np.isfinite(got).all() and (got >= 0).all()
        and abs(math.fsum(got) - 1) < 1e-12
        and all(abs(g - w) <= 1e-10 * w + 1e-300 for g, w in zip(got, want)),
        key, 'softmax of %s is %s instead of %s' % (v, got.tolist(), want))


def unit_softmax(rec, n, values, first):
    with np.errstate(all='ignore'):
        for rest in itertools.product(values, repeat=n - 1):
            v = (first,) + rest
            rec.state(v)
            rec.trace()
            rec.step()
            a = np.array(v)
            got = softmax(a)
            rec.check(got.shape == a.shape, 'softmax-shape', '%s' % (v,))
            rec.check(np.array_equal(a, np.array(v)), 'softmax-input',
                      'softmax changes its argument %s' % (v,))
            if not check_soft(rec, got, v, 'softmax'):
                continue
            if max(abs(x) for x in v) < 1e4:
                for c in (1., -50., 1e5):
                    s = [x + c for x in v]
                    if all((x + c) - c == x for x in v):
                        rec.step()
                        check_soft(rec, softmax(np.array(s)), v,
                                   'softmax-shift')
            # every axis of every shape: each line is its own softmax
            for shape in set(((n, 1), (1, n), (n, 1, 1), (1, n, 1),
                              (1, 1, n))):
                ax = shape.index(n)
                for axis in {ax, ax - len(shape)}:
                    rec.step()
                    g = softmax(a.reshape(shape), axis=axis)
                    rec.check(g.shape == shape, 'softmax-shape',
                              'shape %s' % (shape,))
                    check_soft(rec, g, v, 'softmax-axis')
    rec.sample(scores=v, softmax=got.tolist())


def unit_softmax_lines(rec):
    """Lines of an array do not influence each other."""
    lines = [(0., 0., 1e308), (-1e308, 0., 1.), (1., 2., 3.),
             (-800., -801., -900.), (5., 5., 5.)]
    for i, j in itertools.product(range(len(lines)), repeat=2):
        A = np.array([lines[i], lines[j]])
        with np.errstate(all='ignore'):
            for axis in (1, -1, None):
                g = softmax(A) if axis is None else softmax(A, axis=axis)
                for r, v in zip(g, (lines[i], lines[j])):
                    rec.step()
                    check_soft(rec, r, v, 'softmax-lines')
            for axis in (0, -2):
                g = softmax(A.T, axis=axis)
                for r, v in zip(g.T, (lines[i], lines[j])):
                    rec.step()
                    check_soft(rec, r, v, 'softmax-lines')
            T = np.stack([A, A[::-1], A])
            g = softmax(T, axis=2)
            for k in range(3):
                for r, v in zip(g[k], T[k].tolist()):
                    rec.step()
                    check_soft(rec, r, v, 'softmax-lines')
            g = softmax(np.moveaxis(T, 2, 1), axis=1)
            for k in range(3):
                for r, v in zip(g[k].T, T[k].tolist()):
                    check_soft(rec, r, v, 'softmax-lines')
        rec.state(i, j)
        rec.trace()
    for dt in ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', '?'):
        info = (0, 1) if dt == '?' else (np.iinfo(dt).min, np.iinfo(dt).max)
        vals = sorted({info[0], info[1], 0, 1, info[1] // 2})
        for v in itertools.product(vals, repeat=2):
            rec.state(dt, v)
            rec.trace()
            rec.step()
            a = np.array(v, dt)
            check_soft(rec, softmax(a), [float(x) for x in v],
                       'softmax-dtype')
            for x, g in zip(v, np.asarray(sigmoid(a), float)):
                rec.check(abs(g - ref_sigmoid(float(x))) < 1e-10,
                          'sigmoid-dtype', 'sigmoid of %s %d is %r'
                          % (dt, x, g))


def ref_sigmoid(x):
    if x >= 0:
        return 1 / (1 + math.exp(-x))
    return math.exp(x) / (1 + math.exp(x))


def unit_sigmoid(rec):
    pts = sorted(set(
        [s * m * 10. ** e for s in (1, -1) for m in (1, 2, 5, 7.45)
         for e in range(-320, 308, 4)]
        + [k / 4. for k in range(-160, 161)]
        + [float(k) for k in range(-760, 761, 8)]
        + [0., 1.7e308, -1.7e308, 36.7, 37., -745.1, -745.2, 709.8]))
    with np.errstate(all='ignore'):
        arr = sigmoid(np.array(pts))
        rec.check(arr.shape == (len(pts),), 'sigmoid-shape', '')
        prev = 0.
        for x, g in zip(pts, arr):
            rec.state(x)
            rec.trace()
            rec.step()
            w = ref_sigmoid(x)
            rec.check(np.isfinite(g) and 0 <= g <= 1
                      and abs(g - w) <= 1e-10 * w + 1e-300, 'sigmoid',
                      'sigmoid(%r) is %r instead of %r' % (x, g, w))
            rec.check(g >= prev - 1e-15, 'sigmoid-monotone', 'at %r' % x)
            prev = g
            for form in (float(x), np.float64(x), np.array(x),
                         np.array([[x]])):
                f = sigmoid(form)
                rec.step()
                rec.check(np.shape(f) == np.shape(form)
                          and abs(float(np.ravel(f)[0]) - g) < 1e-14,
                          'sigmoid-form', 'sigmoid of %r' % (form,))
            m = float(sigmoid(np.float64(-x)))
            rec.check(abs(m + g - 1) < 1e-12, 'sigmoid-symmetric',
                      'sigmoid(%r) and of its negative add up to %r'
                      % (x, m + g))
            # the softmax of two scores
            p = softmax(np.array([x, 0.]))
            rec.check(abs(p[0] - g) < 1e-12, 'sigmoid-softmax', 'at %r' % x)
    rec.sample(points=len(pts))


# ----------------------------------------------------------- dissimilarity
def ref_diss(A, B):
    def unit(M):
        return [[x / math.sqrt(math.fsum(y * y for y in r)) if any(r)
                 else 0. for x in r] for r in M]
    A, B = unit(A), unit(B)
    C = [[math.fsum(x * y for x, y in zip(a, b)) for b in B] for a in A]
    rows = math.fsum(max(r) for r in C)
    cols = math.fsum(max(c) for c in zip(*C))
    return 1 - (rows + cols) / (2. * len(A))


def unit_diss(rec, k, p, values, part, parts):
    all_ = [np.array(v, float).reshape(k, p)
            for v in itertools.product(values, repeat=k * p)]
    for A in all_[part::parts]:
        la = A.tolist()
        for B in all_:
            lb = B.tolist()
            rec.state(la, lb)
            rec.step()
            rec.trace()
            d = dissimilarity(A, B)
            want = ref_diss(la, lb)
            if not rec.check(abs(d - want) < 1e-12, 'dissimilarity',
                             'of %s and %s: %r instead of %r'
                             % (la, lb, d, want)):
                continue
            rec.check(abs(d - dissimilarity(B, A)) < 1e-12,
                      'dissimilarity-symmetric', '%s %s' % (la, lb))
            rec.check(-1e-12 <= d <= 1 + 1e-12, 'dissimilarity-range',
                      '%s %s: %r' % (la, lb, d))
        # copies: permuted and scaled
        for perm in itertools.permutations(range(k)):
            for s in ((1., 1., 1.), (2., .5, 10.), (1e-12, 1., 1e12),
                      (1e-100, 3., 1e-30), (1e100, 1e-17, 1e-60)):
                B = A[list(perm)] * np.array(s[:k])[:, None]
                d = dissimilarity(A, B)
                rec.step()
                zero = int((A.sum(1) == 0).sum())
                rec.check(abs(d - zero / k) < 1e-12, 'dissimilarity-copy',
                          '%s and its copy %s: %r' % (la, B.tolist(), d))
    rec.sample(bases=la, other=lb, dissimilarity=want)


def units(tier):
    q = tier == 'quick'
    out = [('models', unit_models, ()), ('criteria', unit_criteria, ()),
           ('softmax-lines', unit_softmax_lines, ()),
           ('sigmoid', unit_sigmoid, ())]
    means = (0., .5, 1., 3., 1e-300, 1e6, 5e-324, math.inf)
    short = (0., .5, 3., math.inf)
    for n, ms in ((1, means), (2, means), (3, short if q else means)):
        for f in ms:
            out.append(('poisson-%d-%g' % (n, f), unit_poisson, (n, f, ms)))
    vals = (0., 1., -2., 1e-3, 1e6)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        v = vals if n < 4 else vals[:4]
        for f in v:
            out.append(('normal-%d-%g' % (n, f), unit_normal, (n, v, f)))
    sv = SOFT if q else SOFT_T
    for n in (1, 2, 3, 4):
        for f in sv:
            out.append(('softmax-%d-%g' % (n, f), unit_softmax, (n, sv, f)))
    for k, p, v in ((1, 2, (0, 1, 2, 3)), (2, 2, (0, 1, 2)),
                    (2, 3, (0, 1)), (3, 2, (0, 1)), (1, 3, (0, 1, 2))):
        for i in range(8):
            out.append(('diss-%dx%d-%d' % (k, p, i), unit_diss,
                        (k, p, v, i, 8)))
    if not q:
        for i in range(16):
            out.append(('diss-2x2-fine-%d' % i, unit_diss,
                        (2, 2, (0, 1, 2, 3), i, 16)))
            out.append(('diss-3x3-%d' % i, unit_diss,
                        (3, 3, (0, 1), i, 16)))
            out.append(('diss-2x3-fine-%d' % i, unit_diss,
                        (2, 3, (0, 1, 2), i, 16)))
    return out
