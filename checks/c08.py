"""C08: a fit depends only on its own arguments, not on earlier fits."""
import itertools

import numpy as np

from mc import zoo
from mc.core import in_child
from pyuoi.lbfgs import fmin_lbfgs, LBFGS

PROPERTY = 'C08'
FRESH_WORKERS = True
TECHNIQUE = ('explicit-state exploration of all operation histories of the '
             'real estimators up to a depth, each in a pristine process, '
             'differential against a fresh object at the same random state')
BOUNDS = {
    'quick': 'all histories of 1-3 fits over 5-6 data sets (other sizes, '
             'class counts, constant, rejected) x 22 estimator configurations; '
             'all histories of 3 fits over 2 objects x 2 data sets; all '
             'histories of 2-3 fits of data sets sharing shape, X or y, in '
             'separate and in reused arrays; all histories of 2 fits with '
             'every prediction, transform and score in between; a fit '
             'interrupted at every inner solver call, then another fit; all '
             'histories of 3 optimizer calls over 7 problems',
    'thorough': 'as quick with histories of 4 fits, 3 with use in between'}
ASSUMPTIONS = ['warm starts across fits are only requested from the inner '
               'models, whose warm_start option documents them',
               'the random stream is the generator given to the constructor']

TAGS = {'linear': 'A B K R1 R2'.split(), 'logistic': 'A B C K R1'.split(),
        'poisson': 'A B K R1 R2'.split(), 'nmf': 'A B K R1'.split(),
        'cur': 'A B K R1'.split()}
# a plain Poisson model does not look for missing values
SKIP = {('poisson-plain', 'R1'), ('poisson-plain-cd', 'R1'),
        ('poisson-plain-raw', 'R1')}


def tags_of(name):
    return [t for t in TAGS[zoo.family(name)] if (name, t) not in SKIP]


def outcome(est, fam, tag):
    X, y = zoo.data(fam, tag)
    try:
        zoo.fit(est, fam, X, y)
    except Exception as e:
        return ('raised', type(e).__name__)
    return ('fitted', zoo.observe(est, fam, X.shape[1]))


def state_of(rs):
    return rs.get_state()


def gen(state=None, seed=3):
    rs = np.random.RandomState(seed)
    if state is not None:
        rs.set_state(state)
    return rs


def use(est, fam, X, y):
    """Ask a fitted object for everything it offers."""
    for m in ('predict', 'predict_mean', 'predict_proba', 'decision_function',
              'transform'):
        if hasattr(est, m):
            try:
                out = getattr(est, m)(X)
                if m == 'transform' and hasattr(est, 'inverse_transform'):
                    est.inverse_transform(out)
            except ValueError:
                pass
    if hasattr(est, 'score') and y is not None:
        try:
            est.score(X, y)
        except (TypeError, ValueError):
            pass
    est.get_params()
    repr(est)


def run_history(name, ops, n_obj=1, buffers=None, queries=False):
    """ops: (object, tag). Returns for every object its last operation with
    the random state before it and its outcome, and what earlier results of
    any object have been overwritten. buffers: the data of every fit are
    written into the same arrays."""
    fam = zoo.family(name)
    rss = [gen(seed=3 + i) for i in range(n_obj)]
    objs = [zoo.make(name, rss[i]) for i in range(n_obj)]
    last, kept = {}, []
    for i, (o, tag) in enumerate(ops):
        st = state_of(rss[o])
        X, y = zoo.data(fam, tag)
        if buffers is not None:
            if not buffers:
                buffers[:] = [X.copy(), None if y is None else y.copy()]
            buffers[0][:] = X
            if y is not None:
                buffers[1][:] = y
            X, y = buffers
        try:
            zoo.fit(objs[o], fam, X, y)
        except Exception as e:
            last[o] = (tag, st, ('raised', type(e).__name__))
            continue
        refs = {k: v for k, v in
                zoo.observe(objs[o], fam, X.shape[1], True).items()
                if isinstance(v, (np.ndarray, list))}
        kept.append((o, tag, refs, {k: zoo.snapshot(v)
                                    for k, v in refs.items()}))
        last[o] = (tag, st, None)
        if queries and i < len(ops) - 1:
            use(objs[o], fam, X, y)
    for o in last:
        tag, st, out = last[o]
        if out is None:
            p = zoo.data(fam, tag)[0].shape[1]
            last[o] = (tag, st, ('fitted', zoo.observe(objs[o], fam, p)))
    changed = []
    for o, tag, refs, snaps in kept:
        for k, v in refs.items():
            if zoo.snapshot(v) != snaps[k]:
                changed.append('%s of object %d after fitting %s'
                               % (k, o, tag))
    return last, changed


def fresh(name, tag, st):
    rs = gen(st)
    return outcome(zoo.make(name, rs), zoo.family(name), tag)


def key_of(st):
    return (st[1].tobytes(), st[2])


class Refs(object):
    def __init__(self):
        self.memo = {}

    def get(self, name, tag, st):
        k = (name, tag, key_of(st))
        if k not in self.memo:
            self.memo[k] = in_child(fresh, name, tag, st)
        return self.memo[k]


def judge(rec, refs, name, ops, res):
    last, changed = res
    rec.step()
    rec.trace()
    rec.check(not changed, 'overwritten:%s' % name,
              'history %s changed %s' % (ops, changed))
    for o, (tag, st, out) in last.items():
        want = refs.get(name, tag, st)
        rec.state(name, tag, key_of(st), out)
        if not rec.check(out[0] == want[0], 'outcome:%s' % name,
                         'history %s: %s, but a fresh object: %s'
                         % (ops, out[:1] if out[0] == 'fitted' else out,
                            want[:1] if want[0] == 'fitted' else want)):
            continue
        d = zoo.differ(out[1], want[1])
        rec.check(d is None, 'history:%s' % name,
                  'after %s the last fit of object %d differs from a fresh '
                  'object: %s' % (ops, o, d))


def unit_histories(rec, name, depth, first):
    refs = Refs()
    tags = tags_of(name)
    for n in range(1, depth + 1):
        for seq in itertools.product(tags, repeat=n):
            if seq[0] != first:
                continue
            ops = [(0, t) for t in seq]
            judge(rec, refs, name, ops, in_child(run_history, name, ops))
    rec.sample(config=name, histories='all of length <= %d' % depth)


def unit_queried(rec, name, depth):
    """Histories in which every fitted object is used before the next fit."""
    refs = Refs()
    for seq in itertools.product(tags_of(name), repeat=depth - 1):
        ops = [(0, t) for t in seq]
        judge(rec, refs, name, '%s, using every fitted object' % ops,
              in_child(run_history, name, ops, 1, None, True))


def unit_two(rec, name, depth):
    """Two estimators of one configuration do not influence each other."""
    refs = Refs()
    alphabet = [(o, t) for o in (0, 1) for t in ('A', 'B')]
    for n in range(2, depth + 1):
        for ops in itertools.product(alphabet, repeat=n):
            if ops[0][0] or len({o for o, _ in ops}) == 1:
                continue
            judge(rec, refs, name, ops,
                  in_child(run_history, name, ops, 2))


def unit_same_shape(rec, name, depth):
    """Data sets that share their shape, their X or their response, in
    arrays of their own or written into the same ones."""
    refs = Refs()
    tags = ['A', 'D'] if zoo.family(name) in ('nmf', 'cur') else \
        ['A', 'D', 'E']
    for n in range(2, depth + 1):
        for seq in itertools.product(tags, repeat=n):
            if len(set(seq)) == 1:
                continue
            ops = [(0, t) for t in seq]
            for buf in (False, True):
                judge(rec, refs, name, '%s%s' % (
                    ops, ' in the same arrays' if buf else ''),
                    in_child(run_history, name, ops, 1,
                             [] if buf else None))


def unit_families(rec):
    """Fitting any configuration first leaves every other one alone."""
    refs = Refs()

    def run(a, b):
        fa = zoo.family(a)
        zoo.fit(zoo.make(a, gen()), fa, *zoo.data(fa, 'A'))
        rs = gen()
        st = state_of(rs)
        out = outcome(zoo.make(b, rs), zoo.family(b), 'A')
        return {0: ('A', st, out)}, []
    for a, b in itertools.permutations(zoo.CONFIGS, 2):
        judge(rec, refs, b, 'fit of %s first' % a, in_child(run, a, b))


class Interrupt(Exception):
    pass


def interrupted(name, tag, at, then):
    """Fit `tag`, raising at the inner solver call number `at`; then fit."""
    fam = zoo.family(name)
    rs = gen()
    est = zoo.make(name, rs)
    count = [0]
    inner = [est._selection_lm, est._estimation_lm] \
        if hasattr(est, '_selection_lm') else [est.nmf]
    for lm in inner:
        def fit(*a, _f=lm.fit, **k):
            count[0] += 1
            if count[0] == at:
                raise Interrupt()
            return _f(*a, **k)
        lm.fit = fit
    hit = False
    X, y = zoo.data(fam, tag)
    try:
        zoo.fit(est, fam, X, y)
    except Interrupt:
        hit = True
    for lm in inner:
        del lm.fit
    st = state_of(rs)
    return hit, {0: (then, st, outcome(est, fam, then))}


def unit_interrupted(rec, name):
    refs = Refs()
    for tag, then in (('A', 'A'), ('A', 'B'), ('B', 'A')):
        at = 1
        while True:
            hit, last = in_child(interrupted, name, tag, at, then)
            if not hit:
                break
            judge(rec, refs, name, 'fit %s raised at solver call %d, fit %s'
                  % (tag, at, then), (last, []))
            at += 1
        rec.check(at > 3, 'harness:no-inner-calls', 'only %d calls' % at)
        rec.note('interruptions', at - 1)


# ------------------------------------------------------- the bare optimizer

def problem(k):
    """(n, options, callback wrapper) of optimizer problem k."""
    A = np.array([[3., 1., 0.], [1., 2., .5], [0., .5, 1.]])
    b = np.array([1., -2., .5])

    def quad(n):
        def f(x, g, *a):
            x_, g_ = np.asarray(x).ravel(), np.asarray(g).reshape(-1)
            g_[:] = A[:n, :n].dot(x_) - b[:n]
            return .5 * x_.dot(A[:n, :n]).dot(x_) - b[:n].dot(x_)
        return f
    return [
        (quad(3), np.zeros(3), {}),
        (quad(1), np.ones(1), {}),
        (quad(3), np.ones(3), dict(orthantwise_c=.4, orthantwise_end=2)),
        (quad(2), np.ones((2, 1)), dict(orthantwise_c=.4,
                                        orthantwise_start=1, m=2)),
        (quad(3), np.ones(3), dict(past=2, delta=1e-3,
                                   line_search='armijo')),
        (quad(3), 5 * np.ones(3), dict(max_iterations=1)),
        ('raise', np.zeros(2), dict(orthantwise_c=.1))][k]


def optimize(k, opt=None):
    f, x0, kw = problem(k)
    if f == 'raise':
        def f(x, g, *a):
            raise Interrupt('callback')
    try:
        if opt is None:
            return ('done', fmin_lbfgs(f, x0, **kw))
        opt.__init__()
        for a, v in kw.items():
            setattr(opt, 'linesearch' if a == 'line_search' else a, v)
        if kw.get('orthantwise_c'):
            opt.linesearch = 'wolfe'
        return ('done', opt.minimize(f, x0))
    except Exception as e:
        return ('raised', type(e).__name__)


def optimizer_history(ops, obj):
    opt = LBFGS() if obj else None
    kept = []
    for k in ops:
        out = optimize(k, opt)
        if out[0] == 'done':
            kept.append((out[1], zoo.snapshot(out[1])))
    return out, [i for i, (v, s) in enumerate(kept) if zoo.snapshot(v) != s]


def unit_optimizer(rec, obj):
    refs = [in_child(optimizer_history, [k], obj)[0] for k in range(7)]
    for n in (2, 3):
        for ops in itertools.product(range(7), repeat=n):
            out, changed = in_child(optimizer_history, ops, obj)
            rec.step()
            rec.trace()
            rec.state('lbfgs', obj, ops[-1], out)
            rec.check(not changed, 'optimizer-overwritten',
                      'calls %s changed earlier results' % (ops,))
            d = zoo.differ(out, refs[ops[-1]], 0, 0)
            rec.check(d is None, 'optimizer-history',
                      'calls %s: %s' % (ops, d))


def units(tier):
    depth = 4 if tier == 'thorough' else 3
    u = []
    for name in zoo.CONFIGS:
        for t in tags_of(name):
            u.append(('histories-%s-%s' % (name, t), unit_histories,
                      (name, depth, t)))
        u.append(('two-' + name, unit_two, (name, depth)))
        u.append(('queried-' + name, unit_queried, (name, depth)))
        u.append(('same-shape-' + name, unit_same_shape,
                  (name, depth)))
        if name in zoo.LINEAR_UOI or name.startswith('nmf'):
            u.append(('interrupted-' + name, unit_interrupted, (name,)))
    u.append(('families', unit_families, ()))
    u.append(('optimizer-call', unit_optimizer, (False,)))
    u.append(('optimizer-object', unit_optimizer, (True,)))
    return u
