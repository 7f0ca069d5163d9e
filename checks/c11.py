"""C11: distributed fits agree with the serial fit on every rank."""
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np
import scipy.sparse as sp

from checks.c12 import mpirun
from mc import env, simmpi
from mc.stubs import QUIET, SelLM, EstLM, StubLinear, design
from pyuoi.linear_model import (UoI_Lasso, UoI_ElasticNet, UoI_L1Logistic,
                                UoI_Poisson)

PROPERTY = 'C11'
UNIT_TIMEOUT = 700
TECHNIQUE = ('explicit-state exploration of real fits over a simulated '
             'communicator: every reachable state and transition of the ranks '
             'under synchronizing and eager completion; differential against '
             'the serial fit; conformance by fits under mpirun')
BOUNDS = {
    'quick': '1-5 ranks x 1-4 selection and estimation bootstraps x 1-3 '
             'settings x stability lists with table-driven models (fewer, as '
             'many and more ranks than tasks); every schedule for 2 and 3 '
             'ranks; 20 real estimator configurations on 2, 3, 5 and 8 ranks; '
             'rejected and constant data; conformance on 2 and 3 processes',
    'thorough': '1-8 ranks, 1-5 bootstraps (at most 6 in all beyond 5 ranks), every schedule up to 3 ranks, and 4 synchronizing ones, '
                'every real configuration on 1-10 ranks under all single '
                'departures from three schedules'}
ASSUMPTIONS = ['ranks share no memory',
               'with more ranks than bootstraps the selection path is not '
               'warm started, so real solvers agree to their tolerance only']


def table(rows, params, C, salt):
    """A fixed pseudo-arbitrary pattern keyed by what the model sees."""
    h = sum((7 * r + 3) * (i + 1 + salt) for i, r in enumerate(rows))
    a = params['alpha']
    return [((h >> (2 * c + a)) % 3 != 0) * (1. + c + a) for c in range(C)]


def est_coef(rows, cols):
    h = sum((5 * r + 1) * (i + 2) for i, r in enumerate(rows))
    return [1. + ((h * (c + 1)) % 11) / 7. for c in cols]


def est_pred(rows, cols, r):
    h = sum((3 * q + 1) * (i + 1) for i, q in enumerate(rows))
    return np.array([((h + 3 * len(cols) + sum(cols)) * (q + 2)) % 7
                     for q in r], dtype=float)


def stub(B, R, E, C, stab, salt, comm, seed):
    return StubLinear(
        SelLM(lambda rows, params: table(rows, params, C, salt)),
        EstLM(est_coef, est_pred), R, n_boots_sel=B, n_boots_est=E,
        stability_selection=stab, selection_frac=.6, estimation_frac=.6,
        random_state=seed, comm=comm)


ATTRS = ('supports_', 'estimates_', 'scores_', 'rp_max_idx_', 'coef_',
         'intercept_', 'n_supports_', 'reg_params_', 'n_reg_params_',
         'selection_thresholds_', 'classes_', 'output_dim')


def snap(m):
    out = {}
    for a in ATTRS:
        if hasattr(m, a):
            v = getattr(m, a)
            out[a] = np.array(v, copy=True) if isinstance(v, np.ndarray) else v
    return out


def same(a, b, tol=0.):
    """Key of the first difference, or None."""
    if set(a) != set(b):
        return 'attributes %s' % sorted(set(a) ^ set(b))
    for k in a:
        x, y = a[k], b[k]
        if k == 'reg_params_':
            if len(x) != len(y) or any(set(p) != set(q) or any(
                    abs(p[i] - q[i]) > 1e-12 * abs(q[i]) for i in p)
                    for p, q in zip(x, y)):
                return k
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return '%s: %s %s, %s %s' % (k, x.dtype, x.shape, y.dtype, y.shape)
        if x.dtype.kind in 'fc':
            t = tol if k != 'scores_' else 10 * tol
            if not np.allclose(x, y, rtol=t, atol=t):
                return '%s: %s, %s' % (k, x, y)
        elif not np.array_equal(x, y):
            return '%s: %s, %s' % (k, x, y)
    return None


def compare(rec, key, w, verdict, want, tol, info):
    if not rec.check(verdict[0] == 'ok', '%s:%s' % (key, verdict[0]),
                     verdict[1], schedule=w.path[-40:], mode=w.mode, **info):
        return
    for r in range(w.size):
        d = same(w.result[r], w.result[0])
        rec.check(d is None, key + ':ranks', 'rank %d and rank 0 differ: %s'
                  % (r, d), mode=w.mode, **info)
    d = same(w.result[w.size - 1], want, tol)
    rec.check(d is None, key + ':serial', 'distributed and serial differ: %s'
              % d, mode=w.mode, **info)


def policies(size):
    """Three fixed schedules: lowest first, highest first, round robin."""
    yield lambda state, en: en[0]
    yield lambda state, en: en[-1]
    last = [0]

    def rr(state, en):
        for k in range(1, size + 1):
            r = (last[0] + k) % size
            if r in en:
                last[0] = r
                return r
    yield rr


FEW = True


def few(rec, make, judge):
    for mode in ('sync', 'eager'):
        for i, p in enumerate(policies(make(mode).size)):
            if i == (0 if mode == 'eager' else 2) and FEW:
                continue
            w = make(mode)
            v = w.run(p)
            rec.step(len(w.path))
            rec.trace()
            judge(w, v)


def unit_stub(rec, size, B, E, big):
    C = 3
    X, y = design(7, C), np.arange(7) * 1.5 - 2
    for R, stab, salt in itertools.product(
            (1, 2, 3), sorted({(1,), (B,), (max(1, B // 2), B)}),
            (0, 1, 2) if big else (0, 1)):
        for seed in (0, 5) if big else (0,):
            want = snap(stub(B, R, E, C, list(stab), salt, None,
                             seed).fit(X, y))
            info = dict(ranks=size, boots=(B, E), settings=R, stability=stab,
                        salt=salt, seed=seed)

            def make(mode):
                def body(comm, r):
                    return snap(stub(B, R, E, C, list(stab), salt, comm,
                                     seed).fit(X, y))
                return simmpi.World(size, body, mode)
            few(rec, make, lambda w, v: compare(rec, 'stub', w, v, want,
                                                1e-12, info))
            rec.state(sorted(info.items()), want['supports_'], want['coef_'])
    rec.sample(supports=want['supports_'].astype(int), coef=want['coef_'],
               **info)


def unit_schedules(rec, size, B, R, E, mode, other):
    """Every schedule; rank streams and data copies differ off the root."""
    C = 2
    X, y = design(6, C), np.array([0., 2, 1, 5, 3, -1])
    want = snap(stub(B, R, E, C, [1, B], 1, None,
                     np.random.RandomState(3)).fit(X, y))
    info = dict(ranks=size, boots=(B, E), settings=R, streams=other)

    def make():
        def body(comm, r):
            if r == 0:
                rs = np.random.RandomState(3)
            elif other == 'seed':
                rs = np.random.RandomState(100 + r)
            else:
                rs = np.random.RandomState(3)
                rs.rand(r)
            m = stub(B, R, E, C, [1, B], 1, comm, rs)
            before = None if r == 0 else rs.get_state()[1:3]
            out = snap(m.fit(X.copy(), y.copy()))
            if before is not None:
                now = rs.get_state()[1:3]
                out_same = np.array_equal(before[0], now[0]) and \
                    before[1] == now[1]
                rec.check(out_same, 'schedule:stream',
                          'rank %d consumed its own random stream' % r, **info)
            return out
        return simmpi.World(size, body, mode)
    n, capped = simmpi.explore(make, rec, limit=20000, judge=lambda w, v:
                               compare(rec, 'schedule', w, v, want, 1e-12,
                                       info))
    rec.note('schedules', n)
    rec.sample(schedules=n, mode=mode, **info)


# --- real estimators ---------------------------------------------------------

def data(kind, n=24, p=4):
    rng = np.random.RandomState(11)
    X = rng.randn(n, p)
    b = np.array([2., 0., -1.5, 0.])[:p]
    if kind == 'normal':
        return X, X.dot(b) + .3 * rng.randn(n) + 1.
    if kind == 'binary':
        return X, np.array(['no', 'yes'])[
            (X.dot(b) + .8 * rng.randn(n) > 0).astype(int)]
    if kind == 'multi':
        s = np.c_[X.dot(b), -X.dot(b), X[:, 1]] + .7 * rng.randn(n, 3)
        return X, s.argmax(1) * 2 + 1
    return X, rng.poisson(np.exp(.4 * X.dot(b) + .5)).astype(float)


CONFIGS = {
    'lasso': (UoI_Lasso, 'normal', dict(n_lambdas=5)),
    'lasso-pycasso': (UoI_Lasso, 'normal', dict(n_lambdas=5,
                                                solver='pyc')),
    'lasso-raw': (UoI_Lasso, 'normal', dict(n_lambdas=4, standardize=False)),
    'lasso-noint': (UoI_Lasso, 'normal', dict(n_lambdas=4, standardize=False,
                                              fit_intercept=False)),
    'lasso-bic': (UoI_Lasso, 'normal', dict(n_lambdas=4,
                                            estimation_score='BIC')),
    'lasso-train': (UoI_Lasso, 'normal', dict(n_lambdas=4,
                                              estimation_target='train')),
    'lasso-stab': (UoI_Lasso, 'normal', dict(n_lambdas=4,
                                             stability_selection=[1, 2])),
    'enet': (UoI_ElasticNet, 'normal', dict(n_lambdas=3, alphas=[.3, .8])),
    'lasso-sparse': (UoI_Lasso, 'normal', dict(n_lambdas=4,
                                               fit_intercept=False,
                                               standardize=False)),
    'lasso-float32': (UoI_Lasso, 'normal', dict(n_lambdas=4)),
    'lasso-stratify': (UoI_Lasso, 'normal', dict(n_lambdas=4)),
    'log': (UoI_L1Logistic, 'binary', dict(n_C=4)),
    'log-noint': (UoI_L1Logistic, 'binary', dict(n_C=4, fit_intercept=False)),
    'log-bic': (UoI_L1Logistic, 'binary', dict(n_C=3,
                                               estimation_score='BIC')),
    'multi': (UoI_L1Logistic, 'multi', dict(n_C=3)),
    'multi-own': (UoI_L1Logistic, 'multi', dict(n_C=3, shared_support=False)),
    'multi-log': (UoI_L1Logistic, 'multi', dict(n_C=3,
                                                estimation_score='log')),
    'poisson': (UoI_Poisson, 'count', dict(n_lambdas=3)),
    'poisson-cd': (UoI_Poisson, 'count', dict(n_lambdas=3, solver='cd',
                                              alphas=[.5])),
    'poisson-bic': (UoI_Poisson, 'count', dict(n_lambdas=3, standardize=False,
                                               estimation_score='BIC')),
}


def real(name, comm, seed=4, B=2, E=2):
    cls, kind, kw = CONFIGS[name]
    X, y = data(kind)
    args = {}
    if name == 'lasso-sparse':
        X = sp.csr_matrix(X * (np.abs(X) > .4))
    if name == 'lasso-float32':
        X, y = X.astype(np.float32), y.astype(np.float32)
    if name == 'lasso-stratify':
        args = dict(stratify=np.arange(len(y)) % 2)
    m = cls(n_boots_sel=B, n_boots_est=E, random_state=seed, comm=comm,
            logger=QUIET, **kw)
    m.fit(X, y, **args)
    if kind == 'normal' and not sp.issparse(X):
        p = m.predict(X)
        assert p.shape == (len(y),)
    return snap(m)


def unit_real(rec, name, sizes):
    B = E = 2
    want = real(name, None)
    for size in sizes:
        def make(mode):
            return simmpi.World(size, lambda comm, r: real(name, comm), mode)
        tol = 1e-9 if size <= B else 2e-2

        def judge(w, v):
            compare(rec, 'real:' + name, w, v, want, tol,
                    dict(model=name, ranks=size))
        few(rec, make, judge)
        rec.state(name, size)
    rec.sample(model=name, coef=want['coef_'], intercept=want['intercept_'])


def unit_edges(rec, size):
    """Data that is rejected or needs no distributed work."""
    X, y = data('normal')
    Xb, yb = data('binary')
    cases = {
        'constant': (UoI_Lasso, X, np.full(len(y), 2.), {}, None),
        'constant-enet': (UoI_ElasticNet, X, np.zeros(len(y)), {}, None),
        'constant-poisson': (UoI_Poisson, X, np.ones(len(y)), {}, None),
        'nan': (UoI_Lasso, np.where(X > 1.9, np.nan, X), y, {}, ValueError),
        'rows': (UoI_Lasso, X, y[:-1], {}, ValueError),
        'two': (UoI_Lasso, X, np.c_[y, y], {}, ValueError),
        'sparse': (UoI_Lasso, sp.csr_matrix(X), y, {}, ValueError),
        'one-feature': (UoI_Lasso, X[:, :1], y, {}, None),
        'pure-noise': (UoI_Lasso, X, np.cos(37. * np.arange(len(y))),
                       dict(estimation_score='BIC'), None),
    }
    for name, (cls, A, b, kw, exc) in cases.items():
        def one(comm):
            return snap(cls(n_boots_sel=2, n_boots_est=2, random_state=1,
                            comm=comm, logger=QUIET, n_lambdas=3,
                            **kw).fit(A, b))
        if exc is None:
            want = one(None)
        else:
            try:
                one(None)
                rec.fail('edge:accepted', name)
            except exc:
                want = None

        def judge(w, v):
            info = dict(case=name, ranks=size)
            if exc is None:
                compare(rec, 'edge', w, v, want, 1e-9 if size < 3 else 1e-2,
                        info)
            else:
                rec.check(v[0] == 'error' and all(
                    isinstance(e, exc) for e in w.error), 'edge:error',
                    '%s %s' % v, **info)
        few(rec, lambda mode: simmpi.World(
            size, lambda comm, r: one(comm), mode), judge)
        rec.state(size, name)


def unit_refit(rec, size):
    """A second distributed fit equals the second serial fit."""
    X, y = data('normal')
    Xb, yb = X[:15, :3], y[:15] ** 2

    def two(comm):
        m = UoI_Lasso(n_boots_sel=2, n_boots_est=3, random_state=6, comm=comm,
                      logger=QUIET, n_lambdas=4)
        m.fit(X, y)
        a = snap(m)
        m.fit(Xb, yb)
        b = snap(m)
        a.update(('second ' + k, v) for k, v in b.items()
                 if isinstance(v, np.ndarray))
        return a
    want = two(None)
    few(rec, lambda mode: simmpi.World(
        size, lambda comm, r: two(comm), mode),
        lambda w, v: compare(rec, 'refit', w, v, want,
                             1e-9 if size < 3 else 1e-2, dict(ranks=size)))
    rec.state(size)


def unit_streams(rec, size):
    """Only the root's stream matters; the global one is not used."""
    X, y = data('normal')
    for name in sorted(CONFIGS):
        # generators: the root's is in the state of the serial fit's
        want = real(name, None, np.random.RandomState(4))
        for off in (0, 1, 50):
            def one(comm, r):
                np.random.seed(12 + r)
                return real(name, comm, np.random.RandomState(4 + off * r))

            def judge(w, v):
                compare(rec, 'streams:' + name, w, v, want,
                        1e-9 if size <= 2 else 2e-2,
                        dict(ranks=size, off=off, model=name))
            few(rec, lambda mode: simmpi.World(size, one, mode), judge)
            rec.state(size, off, name)
    # without a seed all ranks still agree
    def judge(w, v):
        if rec.check(v[0] == 'ok', 'unseeded:' + v[0], v[1], ranks=size):
            for r in range(size):
                d = same(w.result[r], w.result[0])
                rec.check(d is None, 'unseeded:ranks', 'rank %d: %s' % (r, d))
    few(rec, lambda mode: simmpi.World(
        size, lambda comm, r: snap(UoI_Lasso(
            n_boots_sel=2, n_boots_est=2, comm=comm, logger=QUIET,
            n_lambdas=3).fit(X, y)), mode), judge)


REAL = '''
import sys, os, pickle
sys.path.insert(0, %(verif)r)
import mc.env
import mpi4py
mpi4py.rc.initialize = True
mpi4py.rc.finalize = True
from mpi4py import MPI
if not MPI.Is_initialized():
    MPI.Init()
from checks import c11
comm = MPI.COMM_WORLD
out = {}
for name in %(names)r:
    out[name] = c11.real(name, comm)
X, y = c11.design(7, 3), c11.np.arange(7) * 1.5 - 2
for B, R, E in %(stubs)r:
    out[B, R, E] = c11.snap(c11.stub(B, R, E, 3, [1, B], 1, comm, 5).fit(X, y))
with open(os.path.join(%(d)r, 'r%%d' %% comm.rank), 'wb') as f:
    pickle.dump(out, f)
comm.Barrier()
MPI.Finalize()
os._exit(0)
'''


def unit_mpirun(rec, size):
    names = sorted(CONFIGS)[::2]
    stubs = [(B, R, E) for B in (1, 2, 3) for R in (1, 2) for E in (1, 2)]
    if shutil.which('mpirun') is None:
        rec.note('mpirun-absent')
        rec.step()
        return
    d = tempfile.mkdtemp(prefix='c11-')
    try:
        code, out = mpirun(REAL % dict(verif=env.VERIF, d=d, names=names,
                                       stubs=stubs), size, d, 200)
        files = [os.path.join(d, 'r%d' % r) for r in range(size)]
        if not all(os.path.exists(f) for f in files):
            rec.note('mpirun-no-result')
            rec.sample(mpirun=out[-300:])
            rec.step()
            return
        got = [pickle.load(open(f, 'rb')) for f in files]
    finally:
        shutil.rmtree(d)
    X, y = design(7, 3), np.arange(7) * 1.5 - 2
    for k in got[0]:
        if isinstance(k, str):
            want, tol = real(k, None), 1e-9 if size < 3 else 2e-2
        else:
            B, R, E = k
            want = snap(stub(B, R, E, 3, [1, B], 1, None, 5).fit(X, y))
            tol = 1e-12
        for r in range(size):
            dd = same(got[r][k], want, tol)
            rec.check(dd is None, 'mpirun', 'rank %d of %d: %s' % (r, size, dd),
                      model=k)
        rec.step()
        rec.trace()
        rec.state(size, k)
    rec.note('mpirun-fits', len(got[0]))


def units(tier):
    global FEW
    big = tier == 'thorough'
    FEW = not big
    u = []
    for size in (2, 3):
        u.append(('mpirun-%d' % size, unit_mpirun, (size,)))
    for size, B, R, E in [(2, 1, 1, 1), (2, 1, 2, 1), (2, 2, 1, 1),
                          (2, 1, 1, 2), (2, 2, 2, 2), (2, 3, 2, 1),
                          (3, 1, 1, 1)] + (
            [(3, 1, 2, 1), (3, 2, 1, 1), (3, 1, 1, 2), (3, 2, 2, 2),
             (3, 3, 2, 1), (4, 1, 1, 1)] if big else []):
        for mode in ('sync', 'eager'):
            for other in ('seed', 'ahead'):
                if size > 2 and ((other == 'seed') == (mode == 'sync')
                                 or not big and mode == 'eager'):
                    continue
                if size > 3 and mode == 'eager':
                    continue
                u.append(('sched-%d-%d%d%d-%s-%s' % (
                    size, B, R, E, mode, other), unit_schedules,
                    (size, B, R, E, mode, other)))
    sizes = tuple(range(1, 11)) if big else (2, 3, 5, 8)
    for name in CONFIGS:
        u.append(('real-' + name, unit_real, (name, sizes)))
    for size in (1, 2, 3, 5) + ((4, 7) if big else ()):
        u.append(('edges-%d' % size, unit_edges, (size,)))
        u.append(('refit-%d' % size, unit_refit, (size,)))
        u.append(('streams-%d' % size, unit_streams, (size,)))
    for size in range(1, 9 if big else 6):
        for B, E in itertools.product(range(1, 6 if big else 5), repeat=2):
            if size > 5 and B + E > 6:
                continue
            u.append(('stub-%d-%d-%d' % (size, B, E), unit_stub,
                      (size, B, E, big)))
    return u
