"""C10: a seed fully determines the result, no other stream is touched."""
import hashlib
import itertools
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from mc import zoo, env
from mc.core import in_child
from pyuoi.datasets import (make_linear_regression, make_poisson_regression,
                            make_classification)
from pyuoi.decomposition.utils import column_select

PROPERTY = 'C10'
TECHNIQUE = ('exhaustive enumeration of interference with the global random '
             'streams (state before the run, draws and reseeding at every '
             'inner call) around the real estimators and generators, with '
             'bitwise stream monitoring and differential results')
BOUNDS = {
    'quick': '18 seeded configurations and 14 generator variants x 5 kinds of '
             'seed (0, 7, 2**32-1) x 4 ambient states x interference of 2 kinds at every '
             'inner solver call; pairwise different resamples of 8 seeds '
             '(0 included); equal results across processes with other hash '
             'seeds',
    'thorough': 'as quick with 2 data sets, 16 seeds and all pairs of '
                'interference points'}
ASSUMPTIONS = ['interference happens between statements: the inner solver and '
               'clusterer calls are the points at which other code runs']

SEEDED = [n for n in zoo.CONFIGS
          if n in zoo.LINEAR_UOI or zoo.family(n) in ('cur', 'nmf')]
SEEDS = {'int': lambda s: s, 'int64': np.int64, 'int32': np.int32,
         'uint8': np.uint8, 'generator': np.random.RandomState}


def global_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes()) + s[2:], random.getstate()


AMBIENT = {
    'seed0': lambda: (np.random.seed(0), random.seed(0)),
    'seed1': lambda: (np.random.seed(12345), random.seed(1)),
    'drawn': lambda: (np.random.seed(0), np.random.randn(3), random.random()),
    'fresh': lambda: (np.random.seed(), random.seed())}

GENERATORS = {
    'make-linear': lambda rs: make_linear_regression(12, 4, random_state=rs),
    'make-linear-beta': lambda rs: make_linear_regression(
        12, 3, beta=np.array([1., 0, 2.]), include_intercept=True,
        random_state=rs),
    'make-class-2': lambda rs: make_classification(12, 4, random_state=rs),
    'make-class-3': lambda rs: make_classification(
        12, 5, n_classes=3, include_intercept=True, random_state=rs),
    'make-class-3-shared': lambda rs: make_classification(
        12, 5, n_classes=3, shared_support=True, random_state=rs),
    'make-class-all': lambda rs: make_classification(
        12, 3, n_informative=3, random_state=rs),
    'make-poisson': lambda rs: make_poisson_regression(12, 4, random_state=rs),
    'make-poisson-beta': lambda rs: make_poisson_regression(
        12, 3, beta=np.array([1., 0, 2.]), include_intercept=True,
        random_state=rs),
    'make-columns': lambda rs: (column_select(
        np.linalg.qr(np.vander(np.arange(1., 13), 3))[0], 2.,
        random_state=rs),),
    'make-columns-sorted': lambda rs: (column_select(
        np.linalg.qr(np.vander(np.arange(1., 13), 3))[0], 2.,
        leverage_sort=True, random_state=rs),)}


def inner(est):
    return [getattr(est, a) for a in ('_selection_lm', '_estimation_lm',
                                      'nmf', 'cluster') if hasattr(est, a)]


def hooked(est, at):
    """Call at() at every inner call; also record what the calls are given."""
    log = []

    def wrap(f):
        def g(*a, **k):
            log.append(hashlib.blake2b(b''.join(
                np.ascontiguousarray(v).tobytes() for v in a
                if isinstance(v, np.ndarray))).hexdigest())
            at(len(log))
            return f(*a, **k)
        return g
    for lm in inner(est):
        for m in ('fit', 'fit_predict'):
            if hasattr(lm, m):
                setattr(lm, m, wrap(getattr(lm, m)))
    return log


def run(name, rs, tag='A', at=lambda i: None):
    if name in GENERATORS:
        out = GENERATORS[name](rs)
        return dict(enumerate(out)), []
    fam = zoo.family(name)
    est = zoo.make(name, rs)
    log = hooked(est, at)
    X, y = zoo.data(fam, tag)
    zoo.fit(est, fam, X, y)
    out = zoo.observe(est, fam, X.shape[1])
    return out, log


def unit_ambient(rec, name, tags):
    for tag in tags:
        ref = {}
        todo = [(k, a, 7) for k, a in itertools.product(SEEDS, AMBIENT)]
        # falsy seeds, and the largest one
        todo += [(k, a, 0) for k in ('int', 'int64', 'generator')
                 for a in ('seed0', 'fresh')]
        todo += [('int', 'seed0', 2 ** 32 - 1), ('int', 'seed1', 2 ** 32 - 1)]
        for kind, amb, seed in todo:
            AMBIENT[amb]()
            before = global_state()
            rs = SEEDS[kind](seed)
            out, log = run(name, rs, tag)
            rec.step(1 + len(log))
            rec.trace()
            rec.state(name, tag, kind, amb, seed, log)
            rec.check(global_state() == before, 'global-advanced:%s' % name,
                      '%s with a %s seed changed the state of the global '
                      'random stream' % (name, kind))
            # integer seeds of any kind agree; the same generator state too
            k = 'generator' if kind == 'generator' else 'seed', seed
            r = ref.setdefault(k, (kind, amb, out, log))
            d = zoo.differ(r[2], out, 0, 0) or (
                None if r[3] == log else 'other resamples')
            rec.check(d is None, 'irreproducible:%s' % name,
                      '%s: %s seed %d after %s, %s seed after %s: %s'
                      % (name, r[0], seed, r[1], kind, amb, d))
            if kind == 'generator':
                fresh = np.random.RandomState(seed)
                used = any(not np.array_equal(a, b) for a, b in
                           zip(fresh.get_state()[1:], rs.get_state()[1:]))
                rec.check(used, 'generator-unused:%s' % name,
                          '%s drew nothing from the generator' % name)
    rec.sample(config=name, inner_calls=len(log))


def unit_interference(rec, name, pairs):
    """Other code reseeds or uses the global stream while fit runs."""
    np.random.seed(0)
    ref, log = run(name, 7)
    n = len(log)

    def go(points, action):
        marks = []

        def at(i):
            if marks and marks[-1] != global_state():
                marks.append('touched')
            if i in points:
                np.random.seed(99) if action == 'reseed' else \
                    np.random.rand(5)
                random.seed(99) if action == 'reseed' else random.random()
            marks.append(global_state())
        np.random.seed(0)
        out, log2 = run(name, 7, 'A', at)
        rec.step(n)
        rec.trace()
        rec.state(name, points, action)
        rec.check('touched' not in marks and marks[-1] == global_state(),
                  'global-used:%s' % name, '%s moved the global random '
                  'stream between two inner calls' % name)
        d = zoo.differ(ref, out, 0, 0)
        rec.check(d is None and log == log2, 'interference:%s' % name,
                  '%s: %s of the global stream at inner calls %s changes the '
                  'result: %s' % (name, action, points, d))
    for k, action in itertools.product(range(1, n + 1), ('reseed', 'draw')):
        go((k,), action)
    if pairs:
        for ks in itertools.combinations(range(1, n + 1), 2):
            go(ks, 'reseed')
    rec.check(n > 0, 'harness:no-calls', 'no inner calls')


def unit_seeds(rec, name, n):
    """Different seeds give different resamples (or draws)."""
    seen = {}
    for kind in ('int', 'int64', 'generator'):
        for s in range(n):
            out, log = run(name, SEEDS[kind](s))
            if zoo.CONFIGS.get(name, ('', ))[0] == 'cur':
                # the draws are what is selected from random singular vectors
                key = repr(out.get('column_indices_'))
            else:
                key = repr(log) if log else repr(out)
            rec.step(1 + len(log))
            rec.trace()
            rec.state(name, kind, s, key)
            seen.setdefault(kind, {}).setdefault(key, []).append(s)
    for kind, by in seen.items():
        if zoo.CONFIGS.get(name, ('', ))[0] == 'cur' or \
                name.startswith('make-columns'):
            # few possible outcomes: they cannot all be equal
            rec.check(len(by) > 1, 'same-for-all-seeds:%s' % name,
                      '%s gives the same selection for seeds %s'
                      % (name, list(by.values())))
        else:
            same = [v for v in by.values() if len(v) > 1]
            rec.check(not same, 'same-for-seeds:%s' % name,
                      '%s (%s seeds) resamples equally for %s'
                      % (name, kind, same))


def digest_all():
    out = {}
    for name in list(SEEDED) + list(GENERATORS):
        res, log = run(name, 7)
        out[name] = hashlib.sha256(pickle.dumps(
            [log, [(str(k), np.asarray(v).tolist()) for k, v in
                   sorted(res.items(), key=str)]])).hexdigest()
    return out


def unit_processes(rec):
    """The same seeds in processes with another hash seed and environment."""
    ref = None
    for hs in ('0', '1', '4242'):
        e = dict(os.environ, PYTHONHASHSEED=hs, TZ='UTC', HOME='/',
                 PYTHONPATH=env.VERIF)
        p = subprocess.run(
            [sys.executable, '-W', 'ignore', '-c',
             'import mc.env, json, os, sys, warnings\n'
             'warnings.simplefilter("ignore")\n'
             'from checks import c10\n'
             'out = os.dup(1); os.dup2(2, 1)\n'
             'd = c10.digest_all()\n'
             'os.write(out, json.dumps(d).encode())'],
            cwd=env.VERIF, env=e, capture_output=True, timeout=200)
        if not rec.check(p.returncode == 0, 'process-failed',
                         p.stderr.decode()[-500:]):
            return
        got = json.loads(p.stdout.decode())
        ref = ref or got
        rec.step(len(got))
        rec.trace(len(got))
        for n in got:
            rec.state(n, hs)
            rec.check(got[n] == ref[n], 'process:%s' % n,
                      '%s with seed 7 differs between processes' % n)


def units(tier):
    big = tier == 'thorough'
    u = []
    for name in SEEDED + list(GENERATORS):
        u.append(('ambient-' + name, unit_ambient,
                  (name, ('A', 'B') if big else ('A',))))
        if name not in GENERATORS and zoo.family(name) != 'cur':
            u.append(('interference-' + name, unit_interference, (name, big)))
        u.append(('seeds-' + name, unit_seeds, (name, 16 if big else 8)))
    u.append(('processes', unit_processes, ()))
    return u
