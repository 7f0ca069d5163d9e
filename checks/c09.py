"""C09: caller-owned data is never modified."""
import hashlib
import itertools
import os

import numpy as np
import scipy.sparse as sp

from mc import zoo, env
from mc.core import in_child
from pyuoi import utils
from pyuoi.datasets import (make_linear_regression, make_poisson_regression,
                            load_swimmer)
from pyuoi.decomposition.utils import column_select, dissimilarity
from pyuoi.lbfgs import fmin_lbfgs
from pyuoi.linear_model.utils import (intersection,
                                      stability_selection_to_threshold)

PROPERTY = 'C09'
TECHNIQUE = ('exhaustive enumeration of operation sequences x storage layouts '
             'on the real code, with bitwise monitoring of the caller\'s '
             'memory at every inner call, interruption at every inner call, '
             'and writes into every result')
BOUNDS = {
    'quick': '22 estimator configurations x up to 12 storage layouts x fit '
             'followed by every other operation, by a fit of other data and '
             'by writing into every published array; caller memory compared '
             'at every inner solver call and after an exception at every '
             'such call; masks, weights, start points, option arrays; all '
             'module-level functions',
    'thorough': 'as quick with all pairs of following operations'}
ASSUMPTIONS = ['an inner solver sees what fit passes on: the monitored points '
               'are all calls of inner fit, predict and objective functions']

LAYOUTS = {
    'C': lambda a: np.array(a, order='C'),
    'F': lambda a: np.array(a, order='F'),
    'readonly': lambda a: _ro(np.array(a)),
    'view': lambda a: _strided(a),
    'transposed': lambda a: np.array(a.T, order='C').T,
    'int': lambda a: np.round(3 * a).astype(int),
    'float32': lambda a: a.astype(np.float32),
    'list-rows': lambda a: np.array(a)[::-1],
    'csr': sp.csr_matrix, 'csc': sp.csc_matrix, 'coo': sp.coo_matrix,
    'csr-unsorted': lambda a: _unsorted(a)}
SPARSE_OK = ('lasso-noint', 'logistic-free', 'lasso-raw')


def _ro(a):
    a.flags.writeable = False
    return a


def _strided(a):
    if a.ndim == 1:
        b = np.full(2 * a.shape[0], 7., dtype=float)
        b[::2] = a
        return b[::2]
    b = np.full((2 * a.shape[0], 2 * a.shape[1] + 1), 7.)
    b[::2, 1::2] = a
    return b[::2, 1::2]


def _unsorted(a):
    """CSR with unsorted indices, an explicit zero and a duplicate entry."""
    m = sp.csr_matrix(a)
    d, i, p = m.data.copy(), m.indices.copy(), m.indptr.copy()
    for r in range(m.shape[0]):
        s = slice(p[r], p[r + 1])
        d[s], i[s] = d[s][::-1], i[s][::-1]
    return sp.csr_matrix((d, i, p), shape=m.shape)


def base(a):
    while isinstance(a, np.ndarray) and isinstance(a.base, np.ndarray):
        a = a.base
    return a


class Watch(object):
    """Bitwise content of named caller-owned objects."""
    def __init__(self, **objs):
        self.objs = {k: v for k, v in objs.items() if v is not None}
        self.snap = {k: self.take(v) for k, v in self.objs.items()}

    @staticmethod
    def take(v):
        if isinstance(v, np.ndarray):
            return zoo.snapshot(v), zoo.snapshot(base(v))
        return zoo.snapshot(v)

    def changed(self):
        return [k for k, v in self.objs.items() if self.take(v) !=
                self.snap[k]]


def buffers(v):
    if sp.issparse(v):
        return [getattr(v, k) for k in ('data', 'indices', 'indptr', 'row',
                                        'col') if hasattr(v, k)]
    return [v] if isinstance(v, np.ndarray) else []


def shares(a, objs):
    return [k for k, v in objs.items() for b in buffers(v) for c in buffers(a)
            if np.may_share_memory(b, c) and np.shares_memory(b, c)]


def scribble(v):
    for b in buffers(v):
        if b.flags.writeable and b.dtype.kind in 'fiub':
            b[...] = 1 if b.dtype.kind == 'b' else 77


def inner_models(est):
    return [getattr(est, a) for a in ('_selection_lm', '_estimation_lm',
                                      'nmf', 'cluster') if hasattr(est, a)]


class Stop(Exception):
    pass


def monitored(est, watch, at=None):
    """Compare the watched memory at every inner call; raise at call `at`."""
    seen = dict(calls=0, changed=[])

    def wrap(f):
        def g(*a, **k):
            seen['calls'] += 1
            seen['changed'] += watch.changed()
            if seen['calls'] == at:
                raise Stop()
            return f(*a, **k)
        return g
    for lm in inner_models(est):
        for m in ('fit', 'predict', 'predict_mean', 'predict_proba',
                  'fit_predict'):
            if hasattr(lm, m):
                setattr(lm, m, wrap(getattr(lm, m)))
    return seen


def inputs(name, layout, tag='A'):
    fam = zoo.family(name)
    X, y = zoo.data(fam, tag)
    X = LAYOUTS[layout](np.abs(X) if fam == 'nmf' and layout != 'int' else X)
    if y is not None and layout in ('C', 'readonly', 'view', 'list-rows',
                                    'F'):
        y = LAYOUTS['C' if layout == 'F' else layout](np.asarray(y))
        if fam == 'logistic':
            y = y.astype(int) if layout != 'readonly' else y
    return fam, X, y


def follow_ups(est, fam, X, y):
    """(name, callable) of every further operation on a fitted object."""
    ops = []
    p = X.shape[1]
    Xp = LAYOUTS['C'](zoo.probe(fam, p))
    for m in ('predict', 'predict_mean', 'predict_proba', 'transform',
              'decision_function', 'predict_log_proba'):
        if not hasattr(est, m) or (fam == 'linear' and m != 'predict'):
            continue
        ops.append((m, getattr(est, m), (Xp,)))
        if not sp.issparse(X) or m in ('predict',):
            ops.append((m + '-train', getattr(est, m), (X,)))
    if hasattr(est, 'inverse_transform'):
        W = np.abs(zoo.probe(fam, est.components_.shape[0]))
        ops.append(('inverse_transform', est.inverse_transform, (W,)))
    if hasattr(est, 'score') and y is not None and fam != 'poisson':
        ops.append(('score', est.score, (X, y)))
    if hasattr(est, 'fit_transform'):
        ops.append(('fit_transform', est.fit_transform, (X,)))
    X2, y2 = zoo.data(fam, 'B')
    ops.append(('refit', est.fit, (X2,) if y2 is None else (X2, y2)))
    return ops


def unit_fit(rec, name, layout, deep):
    n_ops = None
    first = None
    while True:
        fam, X, y = inputs(name, layout)
        est = zoo.make(name, np.random.RandomState(3))
        watch = Watch(X=X, y=y)
        seen = monitored(est, watch)
        try:
            zoo.fit(est, fam, X, y)
        except (ValueError, TypeError, AttributeError) as e:
            rec.note('rejected-layouts-' + layout)
            rec.check(layout not in ('C', 'F', 'view', 'readonly',
                                     'transposed', 'list-rows'),
                      'layout-failed:%s' % name,
                      '%s failed to fit %s data: %r' % (name, layout, e))
            rec.check(not watch.changed(), 'fit:%s' % name,
                      'rejected fit of %s data changed %s'
                      % (layout, watch.changed()))
            rec.step()
            return
        rec.step(1 + seen['calls'])
        rec.trace()
        rec.state(name, layout, seen['calls'])
        rec.check(not seen['changed'], 'during-fit:%s' % name,
                  '%s data: %s changed while fit was running'
                  % (layout, seen['changed'][:3]))
        rec.check(not watch.changed(), 'fit:%s' % name,
                  'fit of %s data changed %s' % (layout, watch.changed()))
        for a in zoo.ATTRS:
            v = getattr(est, a, None)
            if isinstance(v, np.ndarray):
                rec.check(not shares(v, watch.objs), 'shared:%s' % name,
                          '%s shares memory with %s (%s data)'
                          % (a, shares(v, watch.objs), layout))
        ops = follow_ups(est, fam, X, y)
        seqs = list(itertools.product(range(len(ops)), repeat=2 if deep
                                      else 1))
        if n_ops is None:
            n_ops, first = len(seqs), iter(seqs)
        seq = next(first, None)
        if seq is None:
            break
        for i in seq:
            op, f, args = ops[i]
            w2 = Watch(**{'arg%d' % k: a for k, a in enumerate(args)})
            try:
                out = f(*args)
            except (ValueError, TypeError, AttributeError):
                out = None
            rec.step()
            rec.state(name, layout, op)
            rec.check(not w2.changed() and not watch.changed(),
                      '%s:%s' % (op, name),
                      '%s after fitting %s data changed %s'
                      % (op, layout, w2.changed() + watch.changed()))
            if out is not None and out is not est:
                rec.check(not shares(out, dict(watch.objs, **w2.objs)),
                          'shared:%s' % name,
                          'the result of %s shares the caller\'s memory '
                          '(%s data)' % (op, layout))
                scribble(out)
        # the caller may write into what was published
        for a in zoo.ATTRS:
            v = getattr(est, a, None)
            if isinstance(v, np.ndarray):
                scribble(v)
        rec.check(not watch.changed(), 'write-through:%s' % name,
                  'writing into the results of %s changed %s'
                  % ([ops[i][0] for i in seq], watch.changed()))
    if layout == 'C':
        rec.sample(config=name, layout=layout, inner_calls=seen['calls'],
                   sequences=n_ops)


def unit_interrupted(rec, name, layout):
    """The caller's memory after an exception at every inner call."""
    at = 1
    while True:
        fam, X, y = inputs(name, layout)
        est = zoo.make(name, np.random.RandomState(3))
        watch = Watch(X=X, y=y)
        monitored(est, watch, at)
        hit = False
        try:
            zoo.fit(est, fam, X, y)
        except Stop:
            hit = True
        except (ValueError, TypeError):
            rec.step()
            return
        rec.step()
        rec.trace()
        rec.state(name, layout, at, hit)
        rec.check(not watch.changed(), 'interrupted:%s' % name,
                  'an exception at inner call %d left %s changed'
                  % (at, watch.changed()))
        if not hit:
            break
        at += 1


def unit_options(rec):
    """Option arrays, masks, weights, labels and start points."""
    from pyuoi.linear_model import UoI_Lasso, UoI_ElasticNet, UoI_Poisson, \
        UoI_L1Logistic
    from pyuoi.linear_model.logistic import MaskedCoefLogisticRegression
    from pyuoi.linear_model.poisson import Poisson
    from pyuoi.decomposition import UoI_NMF, UoI_CUR, CUR
    base_kw = dict(n_boots_sel=2, n_boots_est=2, random_state=1,
                   logger=zoo.QUIET)

    def run(key, build, call, **objs):
        w = Watch(**objs)
        est = build()
        for _ in range(2):
            try:
                call(est)
            except Stop:
                pass
            rec.step()
            rec.trace()
            rec.state(key)
            rec.check(not w.changed(), 'options:%s' % key,
                      '%s changed %s' % (key, w.changed()))

    for kind, mk in (('array', np.array), ('list', list),
                     ('readonly', lambda v: _ro(np.array(v)))):
        for cls, fam, ext in ((UoI_ElasticNet, 'linear', {}),
                              (UoI_Poisson, 'poisson', {})):
            al, ss = mk([1., .5]), mk([1, 2])
            X, y = zoo.data(fam, 'A')
            run('%s-alphas-%s' % (cls.__name__, kind),
                lambda: cls(alphas=al, stability_selection=ss, n_lambdas=3,
                            **base_kw),
                lambda e: e.fit(X, y), alphas=al, stability=ss, X=X, y=y)
        for thr in ([.5, 1.], [1, 2]):
            ss = mk(thr)
            strat = mk([1, 2] * 7)
            X, y = zoo.data('linear', 'A')
            run('lasso-stratify-%s' % kind,
                lambda: UoI_Lasso(stability_selection=ss, n_lambdas=3,
                                  **base_kw),
                lambda e: e.fit(X, y, stratify=strat),
                stability=ss, stratify=strat, X=X, y=y)
            ss2 = mk(thr)
            w = Watch(thr=ss2)
            got = stability_selection_to_threshold(ss2, 2)
            got[...] = 9
            rec.check(not w.changed(), 'options:thresholds',
                      'the thresholds share the option array')
        ranks = mk([3, 2])
        X = zoo.data('nmf', 'A')[0]
        run('nmf-ranks-%s' % kind,
            lambda: UoI_NMF(n_boots=3, ranks=ranks, nmf_max_iter=20,
                            logger=zoo.QUIET),
            lambda e: e.fit_transform(X), ranks=ranks, X=X)
        ks, cs = mk([2, 1]), mk([3., 2.])
        Xc = zoo.data('cur', 'A')[0]
        if kind != 'list':
            ks = ks.astype(int) if kind == 'array' else ks
        run('cur-ks-%s' % kind,
            lambda: UoI_CUR(n_boots=2, max_k=2, boots_frac=.8),
            lambda e: e.fit(Xc, ks=ks, cs=cs), ks=ks, cs=cs, X=Xc)
    # the default option arrays of a class are shared by all its objects
    X, y = zoo.data('linear', 'A')
    d = UoI_ElasticNet(**base_kw).alphas
    run('default-alphas', lambda: UoI_ElasticNet(n_lambdas=3, **base_kw),
        lambda e: e.fit(X, y), default=d)
    Xp, yp = zoo.data('poisson', 'A')
    d2 = UoI_Poisson(**base_kw).alphas
    run('default-alphas-poisson', lambda: UoI_Poisson(n_lambdas=3, **base_kw),
        lambda e: e.fit(Xp, yp), default=d2)

    for pen, st, fi, tag, lay in itertools.product(
            ('l1', 'l2'), (False, True), (False, True), ('A', 'C'),
            ('C', 'F', 'readonly', 'csr')):
        if lay == 'csr' and st and fi:
            continue
        X, y = zoo.data('logistic', tag)
        X = LAYOUTS[lay](X)
        K = 3 if tag == 'C' else 1
        for mask in ([1, 0, 1], [1, 1, 1], [0, 0, 0]):
            m = np.array(mask * K, dtype=bool).reshape(K, -1)
            m = m if K > 1 else m.ravel()
            if lay == 'readonly':
                m = _ro(m)
            sw = LAYOUTS['readonly' if lay == 'readonly' else 'C'](
                np.linspace(.5, 2, len(y)))
            cw = {0: 1., 1: 2., 2: .5} if K == 3 else {0: 1., 1: 2.}
            run('masked-%s-%s' % (pen, lay),
                lambda: MaskedCoefLogisticRegression(
                    penalty=pen, C=5., standardize=st, fit_intercept=fi,
                    class_weight=cw, warm_start=True),
                lambda e: e.fit(X, y, sample_weight=sw, coef_mask=m),
                X=X, y=y, mask=m, weights=sw, class_weight=cw)
    for solver, st, fi, l1, lay in itertools.product(
            ('lbfgs', 'cd'), (False, True), (False, True), (1., .3),
            ('C', 'F', 'readonly', 'view')):
        X, y = zoo.data('poisson', 'A')
        X, y = LAYOUTS[lay](X), LAYOUTS[lay](y)
        sw = LAYOUTS[lay](np.linspace(.5, 2, len(y)))
        run('poisson-%s-%s' % (solver, lay),
            lambda: Poisson(alpha=.1, l1_ratio=l1, solver=solver,
                            standardize=st, fit_intercept=fi,
                            warm_start=True),
            lambda e: e.fit(X, y, sample_weight=sw), X=X, y=y, weights=sw)
    X, y = zoo.data('poisson', 'A')
    coef = np.array([.5, 0., -1.])
    for f in (lambda: Poisson.adjusted_response(X, y, coef, .5),
              lambda: Poisson.soft_threshold(coef, .2)):
        w = Watch(X=X, y=y, coef=coef)
        out = f()
        for o in (out if isinstance(out, tuple) else (out,)):
            scribble(o)
        rec.step()
        rec.check(not w.changed(), 'options:poisson-helpers',
                  'changed %s' % w.changed())
    # a start point taken from a previous model keeps its values
    for name, kw in (('l1', dict(penalty='l1')), ('l2', {})):
        X, y = zoo.data('logistic', 'C')
        m = MaskedCoefLogisticRegression(warm_start=True, C=2., **kw)
        m.fit(X, y)
        kept = {a: getattr(m, a) for a in ('coef_', 'intercept_')}
        w = Watch(**kept)
        m.set_params(C=.2)
        m.fit(X, y, coef_mask=np.tile(np.array([1, 0, 1]), (3, 1)))
        rec.step()
        rec.check(not w.changed(), 'options:warm-start',
                  'refitting %s from a warm start changed the earlier %s'
                  % (name, w.changed()))
    for solver in ('lbfgs', 'cd'):
        X, y = zoo.data('poisson', 'A')
        m = Poisson(alpha=.05, warm_start=True, solver=solver)
        m.fit(X, y)
        w = Watch(coef=m.coef_)
        m.set_params(alpha=.5)
        m.fit(X, y)
        rec.step()
        rec.check(not w.changed(), 'options:warm-start',
                  'refitting Poisson (%s) changed the earlier %s'
                  % (solver, w.changed()))


def unit_lbfgs(rec):
    """x0 and the callback arguments, at every evaluation."""
    A = np.array([[3., 1., 0.], [1., 2., .5], [0., .5, 1.]])
    for shape, lay, c, ls, bad in itertools.product(
            ((3,), (3, 1), (1, 3)), ('C', 'readonly', 'view', 'F', 'list',
                                     'int', 'float32'),
            (0, .3), ('default', 'armijo', 'wolfe', 'strongwolfe'),
            (None, 1, 2, 4)):
        x0 = np.array([1., -2., .5]).reshape(shape)
        x0 = x0.tolist() if lay == 'list' else LAYOUTS[lay](x0)
        arg = np.array([1., -1., .5])
        w = Watch(x0=x0, arg=arg)
        n, hits = [0], []

        def f(x, g, b):
            n[0] += 1
            hits.extend(w.changed())
            if n[0] == bad:
                raise Stop()
            v = np.asarray(x).ravel()
            r = A.dot(v) - b
            np.asarray(g).reshape(-1)[:] = r
            val = .5 * v.dot(A).dot(v) - b.dot(v)
            np.asarray(x)[...] = np.asarray(x)
            return val

        def prog(x, g, *a):
            hits.extend(w.changed())
        try:
            out = fmin_lbfgs(f, x0, prog, args=(arg,), orthantwise_c=c,
                             line_search=ls)
        except Stop:
            out = None
        except Exception as e:
            if 'progress' in repr(e):
                raise
            out = None
        rec.step(n[0])
        rec.trace()
        rec.state(shape, lay, c, ls, bad, n[0])
        rec.check(not hits and not w.changed(), 'lbfgs',
                  '%s start of shape %s (C=%s, %s, exception at %s): %s '
                  'changed' % (lay, shape, c, ls, bad, hits + w.changed()))
        if out is not None:
            rec.check(not shares(out, {k: v for k, v in w.objs.items()
                                       if isinstance(v, np.ndarray)}),
                      'lbfgs-shared', 'the result shares the start point')


def unit_functions(rec):
    """Module-level functions on every layout."""
    g = np.random.RandomState(2)
    P, Q = g.rand(4, 3), g.rand(4, 3)
    cases = [
        ('softmax', utils.softmax, (P,)), ('sigmoid', utils.sigmoid, (P,)),
        ('softmax-axis', lambda a: utils.softmax(a, axis=0), (P,)),
        ('ll-normal', lambda a, b: utils.log_likelihood_glm('normal', a, b),
         (P[:, 0], Q[:, 0])),
        ('ll-poisson', lambda a, b: utils.log_likelihood_glm('poisson', a, b),
         (np.floor(3 * P[:, 0]), Q[:, 0])),
        ('ll-poisson-0', lambda a, b: utils.log_likelihood_glm(
            'poisson', a, b), (np.zeros(4), np.zeros(4))),
        ('dissimilarity', dissimilarity, (P, Q)),
        ('dissimilarity-self', lambda a: dissimilarity(a, a), (P,)),
        ('column_select', lambda a: column_select(a, 2., random_state=1),
         (np.linalg.qr(P)[0],)),
        ('column_select-sorted', lambda a: column_select(
            a, 20., leverage_sort=True, random_state=1),
         (np.linalg.qr(P)[0],)),
        ('intersection', lambda a: intersection(a, np.array([1, 2])),
         ((g.rand(2, 3, 4) > .5).astype(float),)),
        ('linear-data', lambda b: make_linear_regression(
            beta=b, random_state=1), (np.array([1., 0., 2., 0., 3.]),)),
        ('poisson-data', lambda b: make_poisson_regression(
            beta=b, random_state=1), (np.array([1., 0., .2, 0., .3]),)),
    ]
    for (name, f, args), lay in itertools.product(
            cases, ('C', 'F', 'readonly', 'view', 'list-rows')):
        args = [LAYOUTS[lay](a) if a.ndim < 3 or lay in ('C', 'F', 'readonly')
                else np.array(a) for a in args]
        w = Watch(**{'arg%d' % i: a for i, a in enumerate(args)})
        out = f(*args)
        rec.step()
        rec.trace()
        rec.state(name, lay)
        rec.check(not w.changed(), 'function:%s' % name,
                  '%s (%s) changed %s' % (name, lay, w.changed()))
        if isinstance(out, np.ndarray):
            scribble(out)
            rec.check(not w.changed(), 'function:%s' % name,
                      'writing into the result of %s changed %s'
                      % (name, w.changed()))


def _digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest(), os.stat(path).st_mtime_ns


def unit_files(rec):
    """The packaged data file, also where it cannot be written to."""
    d = os.path.join(env.SRC, 'pyuoi', 'data')
    files = [os.path.join(d, f) for f in sorted(os.listdir(d))]
    before = [_digest(f) for f in files]
    for flat in (True, False):
        a = load_swimmer(flatten=flat)
        b = a.copy()
        a[...] = -1
        rec.check(np.array_equal(load_swimmer(flatten=flat), b), 'files',
                  'writing into loaded data changed what is loaded next')
        rec.step(2)
        rec.trace()
        rec.state(flat, a.shape)
    rec.check([_digest(f) for f in files] == before, 'files',
              'loading changed a packaged data file')

    def unprivileged():
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
        if not all(os.access(f, os.R_OK) for f in files) or \
                any(os.access(f, os.W_OK) for f in files):
            return 'skipped'
        return [load_swimmer(flatten=f).shape for f in (True, False)]
    try:
        out = in_child(unprivileged)
    except Exception as e:
        if 'setgroups' in str(e) or 'setuid' in str(e) or 'setgid' in str(e):
            rec.note('no-unprivileged-user')
            return
        rec.fail('files-readonly', 'packaged data cannot be loaded without '
                 'write permission: %s' % str(e)[-300:])
        return
    rec.note('unprivileged-' + ('skipped' if out == 'skipped' else 'loads'))
    rec.step()


def units(tier):
    deep = tier == 'thorough'
    u = []
    for name in zoo.CONFIGS:
        for lay in LAYOUTS:
            u.append(('fit-%s-%s' % (name, lay), unit_fit, (name, lay, deep)))
        if not name.startswith(('masked', 'poisson-plain', 'cur', 'uoi-cur')):
            for lay in ('C', 'F', 'csr') if name in SPARSE_OK else ('C', 'F'):
                u.append(('interrupted-%s-%s' % (name, lay), unit_interrupted,
                          (name, lay)))
    u += [('options', unit_options, ()), ('lbfgs', unit_lbfgs, ()),
          ('functions', unit_functions, ()), ('files', unit_files, ())]
    return u
