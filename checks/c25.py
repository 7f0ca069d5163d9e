"""C25: logging goes to the right logger once and never alters results."""
import io
import itertools
import logging
import os
import sys

import numpy as np

from mc import simmpi, zoo
from mc.core import in_child
from pyuoi.linear_model import (UoI_ElasticNet, UoI_L1Logistic, UoI_Lasso,
                                UoI_Poisson)
from pyuoi.utils import check_logger

PROPERTY = 'C25'
TECHNIQUE = ('explicit-state exploration of all sequences of model '
             'constructions, verbose, quiet and rejected fits and '
             'replacements of standard output, each history in a fresh '
             'process, against a model of where every message belongs')
BOUNDS = {
    'quick': 'all histories of 4 operations over 6 kinds of models (default '
             'and own loggers, shared or not) with up to 3 models alive; 14 '
             'configurations x 5 logger set-ups x verbosity; 7 fits x 1-5 ranks x '
             'fixed schedules x 2 loggers; all histories of 4 logger '
             'requests',
    'thorough': 'histories of 5 operations; all configurations; histories of '
                '6 logger requests'}
ASSUMPTIONS = ['warnings (convergence) are not messages',
               'what a handler the caller attached to the root logger does '
               'is the caller\'s affair, beyond receiving each message at '
               'most once',
               'the handlers of a caller\'s own logger stay attached']


class Keep(logging.Handler):
    """Keeps the messages it is given."""

    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


def own(name, propagate=False):
    lg = logging.getLogger(name)
    lg.propagate = propagate
    h = Keep()
    lg.addHandler(h)
    return lg, h


class Out(object):
    """All that this process writes: replaced sys.stdout, fds 1 and 2."""

    def __init__(self):
        self.fds = {}
        for fd in (1, 2):
            m = os.memfd_create('out%d' % fd)
            os.dup2(m, fd)
            self.fds[fd] = m
        self.at = {1: 0, 2: 0}
        self.streams = []
        self.replace()

    def replace(self):
        sys.stdout = io.StringIO()
        self.streams.append([sys.stdout, 0])

    def take(self):
        """New text: (current stdout, earlier stdouts and fd 1, stderr)."""
        for f in (sys.__stdout__, sys.stderr, sys.__stderr__):
            try:
                f.flush()
            except Exception:
                pass
        new = []
        for s in self.streams:
            v = s[0].getvalue()
            new.append(v[s[1]:])
            s[1] = len(v)
        raw = {}
        for fd, m in self.fds.items():
            v = os.pread(m, 1 << 20, self.at[fd])
            self.at[fd] += len(v)
            raw[fd] = v.decode(errors='replace')
        return new[-1], ''.join(new[:-1]) + raw[1], raw[2]


def fit(est, name, verbose):
    fam = zoo.family(name)
    X, y = zoo.data(fam, 'A')
    kw = {} if verbose is None else dict(verbose=verbose)
    est.fit(*([X] if y is None else [X, y]), **kw)
    return zoo.observe(est, fam, X.shape[1])


def reference(name):
    """Messages and result of one verbose fit with its own logger."""
    def run():
        lg, h = own('verif-reference')
        return fit(zoo.make(name, 0, logger=lg), name, True), h.got
    return in_child(run)


# kind -> (configuration, own logger or None)
KINDS = {'lin': ('lasso-raw', None), 'lin-own': ('lasso-raw', 'own-a'),
         'nmf': ('nmf', None), 'nmf-own': ('nmf', 'own-a'),
         'poi': ('poisson-noint', None), 'poi-own': ('poisson-noint',
                                                     'own-b')}
DEFAULT = {'linear': 'uoi_linear_model', 'logistic': 'uoi_linear_model',
           'poisson': 'uoi_linear_model', 'nmf': 'uoi_decomposition'}


def on_stdout(text, msgs, name):
    """Whether the text is one formatted line per message."""
    lines = text.splitlines()
    return len(lines) == len(msgs) and all(
        ln.endswith(m) and name in ln for ln, m in zip(lines, msgs))


def history(ops, refs):
    """Run the operations; returns the problems found."""
    out = Out()
    loggers = {n: own(n) for n in ('own-a', 'own-b')}
    models, bad = [], []
    for i, op in enumerate(ops):
        for _, h in loggers.values():
            del h.got[:]
        want_out, want_own, name = [], {}, ''
        what = None
        if op[0] == 'new':
            conf, lg = KINDS[op[1]]
            models.append((op[1], zoo.make(
                conf, 0, logger=None if lg is None else loggers[lg][0])))
        elif op[0] == 'stdout':
            out.replace()
        else:
            kind, est = models[op[1]]
            conf, lg = KINDS[kind]
            if op[0] == 'reject':
                X, y = zoo.data(zoo.family(conf), 'A')
                X = -X if y is None else X[:-1]
                try:
                    est.fit(*([X] if y is None else [X, y]), verbose=True)
                    bad.append(('reject:accepted', str(ops[:i + 1])))
                except ValueError:
                    pass
            else:
                verbose = {'verbose': True, 'quiet': False,
                           'plain': None}[op[0]]
                ref, msgs = refs[conf]
                # (the stream of the model goes on from fit to fit)
                got = fit(est, conf, verbose)
                if not any(o[1:] == op[1:] and o[0] in (
                        'verbose', 'quiet', 'plain') for o in ops[:i]):
                    d = zoo.differ(ref, got)
                    if d is not None:
                        bad.append(('result', 'after %s: %s'
                                    % (ops[:i + 1], d)))
                    if verbose:
                        what = msgs
                elif verbose:
                    what = 'some'
                if what and lg is None:
                    want_out, name = what, DEFAULT[zoo.family(conf)]
                elif what:
                    want_own = {lg: what}
        now, old, err = out.take()
        where = 'after %s' % (ops[:i + 1],)
        if old:
            bad.append(('stray', '%s: written to an earlier standard output:'
                        ' %r' % (where, old[:300])))
        if err and 'Warning' not in err:
            bad.append(('stderr', '%s: %r' % (where, err[:300])))
        if want_out == 'some':
            lines = now.splitlines()
            if not lines or not all(name in ln for ln in lines) or \
                    len({ln.split(' - ')[-1] for ln in lines}) < len(lines):
                bad.append(('stdout', '%s: %r' % (where, now[:400])))
        elif not on_stdout(now, want_out, name):
            bad.append(('stdout', '%s: %r instead of %r'
                        % (where, now[:400], want_out)))
        for n, (_, h) in loggers.items():
            w = want_own.get(n, [])
            if w == 'some':
                if not h.got or len(set(h.got)) < len(h.got):
                    bad.append(('own', '%s: %s got %r' % (where, n, h.got)))
            elif h.got != w:
                bad.append(('own', '%s: %s got %r instead of %r'
                            % (where, n, h.got, w)))
    return bad


def all_histories(depth, first):
    def grow(ops, m):
        if len(ops) == depth:
            yield tuple(ops)
            return
        nxt = []
        if m < 3:
            nxt += [(('new', k), m + 1) for k in KINDS]
        nxt += [((o, i), m) for i in range(m)
                for o in ('verbose', 'quiet', 'reject')]
        nxt.append((('stdout',), m))
        for op, mm in nxt:
            for s in grow(ops + [op], mm):
                yield s
    return grow([('new', first)], 1)


def useful(ops):
    # the last operation must be able to show something
    return ops[-1][0] in ('verbose', 'quiet', 'reject')


def unit_histories(rec, depth, first, second):
    refs = {c: reference(c) for c in {c for c, _ in KINDS.values()}}
    n = 0
    for ops in all_histories(depth, first):
        if repr(ops[1]) != second or not useful(ops):
            continue
        bad = in_child(history, ops, refs)
        rec.state(ops)
        rec.step(len(ops))
        rec.trace()
        n += 1
        for k, m in bad:
            rec.fail('history:%s' % k, m, operations=ops)
        if not bad:
            rec.check(True, 'history', '')
    rec.sample(first=first, second=second, histories=n)


def seconds():
    out = {}
    for k in KINDS:
        out[k] = sorted({repr(o[1]) for o in all_histories(2, k)})
    return out


# ------------------------------------------------------- configurations
def setups(kind):
    """(logger or None, handler that must get the messages or None)."""
    if kind == 'default':
        return None, None
    if kind == 'own':
        return own('verif-own')
    if kind == 'own-loud':
        lg, h = own('verif-own')
        lg.setLevel(logging.DEBUG)
        return lg, h
    if kind == 'own-strict':
        lg, h = own('verif-own')
        lg.setLevel(logging.ERROR)
        return lg, h
    if kind == 'own-child':
        own('verif-parent')
        return own('verif-parent.child', propagate=False)
    if kind == 'own-root':
        return own('verif-own', propagate=True)
    if kind == 'own-bare':
        lg = logging.Logger('bare')
        h = Keep()
        lg.addHandler(h)
        return lg, h


SETUPS = ('default', 'own', 'own-loud', 'own-strict', 'own-child',
          'own-root', 'own-bare')


def one_setup(name, kind, root, how):
    bad = []
    out = Out()
    rh = None
    if root:
        rh = Keep()
        logging.getLogger().addHandler(rh)
        logging.getLogger().setLevel(root)
    lg, h = setups(kind)
    ref, msgs = how[1]
    est = zoo.make(name, 0, logger=lg)
    got = fit(est, name, how[0])
    d = zoo.differ(ref, got)
    if d is not None:
        bad.append(('result', d))
    want = msgs if how[0] else []
    now, old, err = out.take()
    if h is None:
        if not on_stdout(now, want, DEFAULT[zoo.family(name)]):
            bad.append(('stdout', '%r instead of %r' % (now[:400], want)))
    else:
        if now:
            bad.append(('stdout', 'own logger, yet %r' % now[:400]))
        if h.got != want:
            bad.append(('own', '%r instead of %r' % (h.got, want)))
    if old:
        bad.append(('stray', repr(old[:300])))
    if err and 'Warning' not in err:
        bad.append(('stderr', repr(err[:300])))
    if rh is not None:
        if len(set(rh.got)) < len(rh.got) or not set(rh.got) <= set(want):
            bad.append(('root', repr(rh.got)))
        if kind == 'own-root' and sorted(rh.got) != sorted(want):
            bad.append(('root', repr(rh.got)))
    return bad


def unit_setup(rec, name):
    ref = reference(name)
    msgs = ref[1]
    rec.check(len(set(msgs)) == len(msgs) and len(msgs) >= 2, 'messages',
              '%s: %r' % (name, msgs))
    for kind, root, verbose in itertools.product(
            SETUPS, (0, logging.DEBUG, logging.ERROR), (True, False, None)):
        bad = in_child(one_setup, name, kind, root, (verbose, ref))
        rec.state(name, kind, root, verbose)
        rec.step()
        rec.trace()
        for k, m in bad:
            rec.fail('setup:%s' % k, '%s, %s logger, root level %s, verbose='
                     '%s: %s' % (name, kind, root, verbose, m))
    rec.sample(config=name, messages=msgs)


def silent(name):
    """Estimators without a logger print nothing."""
    out = Out()
    fam = zoo.family(name)
    X, y = zoo.data(fam, 'A')
    est = zoo.make(name, 0)
    zoo.fit(est, fam, X, y)
    zoo.observe(est, fam, X.shape[1])
    now, old, err = out.take()
    return [now + old + ('' if 'Warning' in err else err)]


def transforms(name):
    """Predictions and transforms of a model print nothing after a fit."""
    out = Out()
    bad = []
    for verbose in (True, False):
        lg, h = own('verif-own')
        est = zoo.make(name, 0, logger=lg)
        fit(est, name, verbose)
        del h.got[:]
        if zoo.family(name) == 'nmf':
            X = zoo.data('nmf', 'A')[0]
            a = est.fit_transform(X, verbose=False)
            b = zoo.make(name, 0, logger=lg).fit_transform(X)
            bad += h.got
            c = zoo.make(name, 0, logger=lg).fit_transform(X, verbose=True)
            del a
            if zoo.differ(b, c):
                bad.append('fit_transform depends on the verbosity')
            if not h.got:
                bad.append('fit_transform(verbose=True) is quiet')
        now, old, err = out.take()
        bad += [now + old] if now + old else []
    return bad


def unit_silent(rec):
    for name in zoo.CONFIGS:
        out = in_child(silent, name)
        rec.state(name)
        rec.step()
        rec.trace()
        rec.check(not out[0], 'silent:%s' % name, '%s prints %r'
                  % (name, out[0][:300]))
        if name in zoo.LINEAR_UOI or zoo.family(name) == 'nmf':
            bad = in_child(transforms, name)
            rec.step()
            rec.check(not bad, 'transform:%s' % name, '%s: %r' % (name, bad))


# -------------------------------------------------------------- loggers
def requests(seq):
    out = Out()
    bad = []
    caller = logging.getLogger('verif-caller')
    got = {}
    for i, r in enumerate(seq):
        if r == 'caller':
            lg = check_logger(caller)
            if lg is not caller or caller.handlers:
                bad.append('the caller\'s logger is not used as it is')
            continue
        lg = check_logger(None) if r == 'uoi' else check_logger(None, r)
        if lg.name != r or got.setdefault(r, lg) is not lg:
            bad.append('%s gives logger %s' % (r, lg.name))
        out.take()
        lg.setLevel(logging.DEBUG)
        lg.info('a message %d', i)
        now, old, err = out.take()
        if not on_stdout(now, ['a message %d' % i], r) or old or err:
            bad.append('%s: %r %r %r' % (seq[:i + 1], now, old, err))
    return bad


def unit_requests(rec, depth):
    for d in range(1, depth + 1):
        for seq in itertools.product(('uoi', 'other', 'caller'), repeat=d):
            bad = in_child(requests, seq)
            rec.state(seq)
            rec.step(len(seq))
            rec.trace()
            rec.check(not bad, 'request', '%s: %s' % (seq, bad))


# ------------------------------------------------------------ ranks
def single():
    """Data whose only support is one feature."""
    g = np.random.RandomState(4)
    X = g.randn(14, 1)
    return X, 3 * X[:, 0] + .01 * g.randn(14)


RANKED = {
    # estimator, options, data, regularization settings
    'lasso': (UoI_Lasso, dict(n_lambdas=3), lambda: zoo.data('linear', 'A'),
              3),
    'single': (UoI_Lasso, dict(n_lambdas=1, eps=.5), single, 1),
    'one-strength': (UoI_Lasso, dict(n_lambdas=1),
                     lambda: zoo.data('linear', 'A'), 1),
    'constant': (UoI_Lasso, dict(n_lambdas=2), lambda: (
        zoo.data('linear', 'A')[0], np.ones(len(zoo.data('linear', 'A')[1]))),
        2),
    'enet': (UoI_ElasticNet, dict(n_lambdas=2, alphas=[.5, 1.]),
             lambda: zoo.data('linear', 'B'), 4),
    'logistic': (UoI_L1Logistic, dict(n_C=2),
                 lambda: zoo.data('logistic', 'A'), 2),
    'poisson': (UoI_Poisson, dict(n_lambdas=2, alphas=[1.]),
                lambda: zoo.data('poisson', 'A'), 2),
}


def ranked(kind, boots, comm, lg):
    cls, kw, data, _ = RANKED[kind]
    X, y = data()
    return cls(n_boots_sel=boots, n_boots_est=2, stability_selection=[1, 2],
               random_state=3, comm=comm, logger=lg, **kw), X, y


def ranks(kind, size, boots, mine, verbose, order, again):
    out = Out()
    lg, h = own('verif-own') if mine else (None, None)

    def body(comm, r):
        res = []
        for _ in range(again):
            m, X, y = ranked(kind, boots, comm, lg)
            m.fit(X, y, verbose=verbose)
            res.append(m.coef_)
        return res
    w = simmpi.World(size, body)
    v = w.run(lambda state, en: min(en, key=order.index))
    now, old, err = out.take()
    got = h.got if mine else [ln.split(' - ')[-1] for ln in now.splitlines()]
    return v, w.result, got, now if mine else '', old, \
        [ln for ln in now.splitlines() if 'uoi_linear_model' not in ln]


def unit_ranks(rec, boots, kind, sizes, repeats):
    def serial():
        lg, h = own('verif-own')
        m, X, y = ranked(kind, boots, None, lg)
        m.fit(X, y, verbose=True)
        return m.coef_, h.got
    coef, msgs = in_child(serial)
    rec.check(bool(msgs) == (kind != 'constant'), 'ranks:serial', '%s' % msgs)
    for size, mine, verbose, again in itertools.product(
            sizes, (True, False), (True, False), repeats):
        for order in {tuple(range(size)), tuple(range(size))[::-1],
                      tuple(range(1, size)) + (0,)}:
            v, res, got, extra, old, unnamed = in_child(
                ranks, kind, size, boots, mine, verbose, order, again)
            rec.state(kind, boots, size, mine, verbose, again, order)
            rec.step()
            rec.trace()
            what = '%s: %d ranks, %d bootstraps, %s logger, verbose=%s: ' % (
                kind, size, boots, 'own' if mine else 'default', verbose)
            rec.check(v[0] == 'ok', 'ranks:verdict', what + '%s %s' % v)
            rec.check(not extra and not old and not unnamed, 'ranks:stray',
                      what + repr((extra[:200], old[:200], unnamed[:2])))
            if not verbose:
                rec.check(not got, 'ranks:quiet', what + repr(got))
            elif size <= boots or not msgs:
                rec.check(sorted(got) == sorted(msgs * again),
                          'ranks:messages', what + '%r instead of %r'
                          % (sorted(got), sorted(msgs * again)))
            else:
                # one message per (bootstrap, strength) in the selection
                rec.check(
                    all(got.count(m) == again for m in set(got))
                    and len(set(got)) == len(msgs)
                    + boots * (RANKED[kind][3] - 1),
                    'ranks:messages', what + repr(sorted(got)))
            if v[0] == 'ok':
                rec.check(all(zoo.differ(coef, c[0], 1e-6, 1e-8) is None
                              for c in res), 'ranks:result', what + repr(res))


def units(tier):
    q = tier == 'quick'
    out = [('silent', unit_silent, ()),
           ('requests', unit_requests, (4 if q else 6,))]
    for b in (2, 3):
        for kind in RANKED:
            deep = not q or kind == 'lasso'
            out.append(('ranks-%s-%d' % (kind, b), unit_ranks, (
                b, kind, (1, 2, 3, 4, 5) if deep else (1, 2, b + 1),
                (1, 2) if deep else (1,))))
    for name in zoo.CONFIGS:
        if name in zoo.LINEAR_UOI or zoo.family(name) == 'nmf':
            out.append(('setup-%s' % name, unit_setup, (name,)))
    for first, sec in seconds().items():
        for s in sec:
            out.append(('histories-%s-%s' % (first, s), unit_histories,
                        (4 if q else 5, first, s)))
    return out
