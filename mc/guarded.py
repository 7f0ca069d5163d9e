"""Runs with the guarded allocator inside the extension (see native/pyalloc.c);
a process of its own, since a wrong access ends it."""
import ctypes
import json
import os
import sys

from mc import env                                            # noqa: F401
import numpy as np
from pyuoi.lbfgs import fmin_lbfgs, LBFGS

LIB = ctypes.CDLL(os.environ['VERIF_GUARDED_EXT'])


def say(**kw):
    print(json.dumps(kw), flush=True)


class Run(object):
    """One minimization: what was evaluated, how it ended."""

    def __init__(self, prob, opt, obj, boom=None, stop=None, spoil=False):
        name, fv, gv, x0 = prob
        self.kept, self.seen, self.n, self.reports = [], [], 0, 0

        def keep(*arrays):
            if spoil:
                # what earlier calls were given is no longer in use
                for a in self.kept:
                    a[...] = np.nan
            self.kept.extend(arrays)

        def f(x, g):
            self.n += 1
            keep(x)
            self.seen.append(x.copy())
            if boom == self.n:
                raise ZeroDivisionError
            g[...] = gv(x)
            r = fv(x)
            self.kept.append(g)
            self.seen.append(g.copy())
            return r

        def p(x, g, *a):
            self.reports += 1
            keep(x, g)
            self.seen += [x.copy(), g.copy()]
            return 1 if self.reports == stop else None
        self.start = x0.copy()
        self.result = self.error = None
        try:
            if obj:
                o = LBFGS()
                for k, v in opt.items():
                    setattr(o, 'linesearch' if k == 'line_search' else k, v)
                self.result = o.minimize(f, self.start, p)
            else:
                self.result = fmin_lbfgs(f, self.start, p, **opt)
        except Exception as e:
            self.error = type(e).__name__
        self.same_start = np.array_equal(self.start, x0)

    def outcome(self):
        return (None if self.result is None else self.result.tolist(),
                self.error, self.n, self.reports)


def settled(what, **info):
    if LIB.vp_live():
        say(bad='leak', msg='%s: %d blocks are not freed'
            % (what, LIB.vp_live()), **info)
    if LIB.vp_bad():
        say(bad='bad-free', msg='%s: wrong free or write before a block'
            % what, **info)


def alloc(prob, opt, obj):
    """Every allocation fails, once or from then on."""
    runs = 0
    LIB.vp_reset()
    base = Run(prob, opt, obj)
    total = LIB.vp_allocs()
    settled('no fault')
    if total < 3:
        say(bad='harness', msg='%d allocations' % total)
    for at in range(1, total + 1):
        for forever in (0, 1):
            info = dict(at=at, forever=forever)
            LIB.vp_reset()
            LIB.vp_arm(at, forever)
            say(step='allocation %d of %d fails' % (at, total), **info)
            r = Run(prob, opt, obj)
            runs += 1
            if r.error != 'MemoryError' or r.n > base.n:
                say(bad='memory-error', msg='allocation %d fails: %s'
                    % (at, r.error), **info)
            if not r.same_start:
                say(bad='start', msg='allocation %d fails: the start changed'
                    % at, **info)
            settled('allocation %d fails' % at, **info)
            LIB.vp_reset()
            again = Run(prob, opt, obj)
            runs += 1
            if again.outcome() != base.outcome():
                say(bad='after', msg='another outcome after allocation %d '
                    'failed' % at, **info)
    return runs, total


def kept(prob, opt, obj):
    """The callbacks keep, and write to, all arrays they are given."""
    runs = 0
    LIB.vp_reset()
    base = Run(prob, opt, obj)
    ends = [{}] + [dict(boom=i) for i in range(1, base.n + 1)] + \
        [dict(stop=i) for i in range(1, base.reports + 1)]
    for end in ends:
        say(step='arrays kept', end=end)
        LIB.vp_reset()
        r = Run(prob, opt, obj, **end)
        runs += 1
        settled('%s' % end, end=end)
        for a, b in zip(r.kept, r.seen):
            if not np.array_equal(a, b):
                say(bad='kept', msg='an array given to a callback changed '
                    'later, %s' % end, end=end)
                break
        mine = None if r.result is None else r.result.copy()
        for a in r.kept:
            a[...] = 7.
        if mine is not None and not np.array_equal(mine, r.result):
            say(bad='shared', msg='the result shares memory with an array '
                'given to a callback', end=end)
        settled('%s, kept arrays written' % end, end=end)
        LIB.vp_reset()
        s = Run(prob, opt, obj, spoil=True, **end)
        runs += 1
        if s.outcome() != r.outcome():
            say(bad='spoil', msg='writing to the arrays of earlier calls '
                'changes the outcome: %s, not %s' % (
                    s.outcome(), r.outcome()), end=end)
    return runs, len(ends)


def main():
    from checks import c16
    mode, k, obj = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    total = 0
    states = []
    for opt in c16.options(k):
        say(option=str(opt))
        runs, points = dict(alloc=alloc, kept=kept)[mode](
            c16.prob(k), opt, obj)
        total += runs
        states.append([str(opt), points])
    say(done=total, states=states)


if __name__ == '__main__':
    main()
