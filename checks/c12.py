"""C12: MPI array helpers deliver exact arrays for any root, shape, dtype."""
import itertools
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import h5py
import numpy as np

from mc import env, simmpi
from mpi4py import MPI
from pyuoi import mpi_utils
from pyuoi.mpi_utils import (Bcast_from_root, Gatherv_rows, load_data_MPI,
                             check_valid_ndarray)

PROPERTY = 'C12'
UNIT_TIMEOUT = 500
TECHNIQUE = ('explicit-state exploration of the real helpers over a simulated '
             'communicator: every reachable state and transition of the ranks '
             'under synchronizing and eager completion, for every root, '
             'shape, type, layout and uneven row count; conformance of the '
             'simulator by running the same scenarios under mpirun')
BOUNDS = {
    'quick': '1-3 ranks, every root, 8 shapes, 4 element types, 7 layouts; '
             'row counts {0,1,2}^ranks; every schedule; file loading with 9 '
             'pairs of shapes x 4 types; conformance of '
             'the helpers and of 19 collectives on 1, 2 and 3 processes',
    'thorough': '1-5 ranks, row counts {0..3}^ranks up to 4 ranks'}
ASSUMPTIONS = ['the supported element types are those of _np2mpi; other types '
               'must be rejected on every rank',
               'ranks share no memory, so a state is the position of every '
               'rank and the data it received']
DTYPES = (np.float64, np.float32, np.int64, np.intc)
SHAPES = ((), (0,), (1,), (5,), (0, 3), (3, 0), (2, 3), (3, 1, 2), (2, 2, 2))
LAYOUTS = ('C', 'F', 'strided', 'reversed', 'offset', 'readonly', 'subclass')


class Sub(np.ndarray):
    pass


def fill(shape, dtype, salt=0):
    n = int(np.prod(shape))
    a = (np.arange(n) * 7 + 3 + 100 * salt) * (1 if np.dtype(dtype).kind == 'i'
                                               else 1.25)
    a = a.astype(dtype).reshape(shape)
    if n > 1 and a.dtype.kind == 'f':
        a.flat[n - 1] = -np.inf
        a.flat[n // 2] = np.nan
    return a


def lay(a, layout):
    if layout == 'C' or (a.ndim == 0 and layout != 'subclass'
                         and layout != 'readonly'):
        return a.copy()
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'strided':
        b = np.full((2 * a.shape[0],) + a.shape[1:], 9, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if layout == 'reversed':
        return a[::-1].copy()[::-1]
    if layout == 'offset':
        b = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 9, dtype=a.dtype)
        b[..., 1:-1] = a
        return b[..., 1:-1]
    if layout == 'readonly':
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.copy().view(Sub)


def same(r, want):
    return (isinstance(r, np.ndarray) and r.shape == want.shape
            and r.dtype == want.dtype
            and np.array_equal(r, want, equal_nan=want.dtype.kind == 'f'))


def verify(rec, key, make, want, info, full=True):
    """All schedules; `want(rank)` is the expected result (None: None)."""
    def judge(w, verdict):
        if not rec.check(verdict[0] == 'ok', key + ':' + verdict[0],
                         verdict[1], schedule=w.path, mode=w.mode, **info):
            return
        for r in range(w.size):
            e = want(r)
            got = w.result[r]
            if e is None:
                rec.check(got is None, key + ':other', 'rank %d gets %r'
                          % (r, got), schedule=w.path, mode=w.mode, **info)
            else:
                es = e if isinstance(e, tuple) else (e,)
                gs = got if isinstance(got, tuple) else (got,)
                rec.check(len(es) == len(gs) and all(
                    same(g, x) for g, x in zip(gs, es)), key + ':content',
                    'rank %d gets %r, not %r' % (r, got, e), schedule=w.path,
                    mode=w.mode, **info)
    for mode in ('sync', 'eager'):
        if full:
            simmpi.explore(lambda: make(mode), rec, judge=judge, limit=100000)
        else:                               # contents only: one schedule
            w = make(mode)
            v = w.run(lambda state, en: en[0])
            rec.step(len(w.path))
            rec.trace()
            judge(w, v)


def unit_bcast(rec, size, root, shape, big):
    for dt, layout in itertools.product(DTYPES, LAYOUTS):
        a = fill(shape, dt)
        src = lay(a, layout)
        for others in ('none', 'same', 'other'):
            # data content is explored under all schedules once per layout
            full = big or others == 'none' and (layout == 'C' or dt == float)

            def make(mode):
                def body(comm, r):
                    if r == root:
                        s = src
                    elif others == 'none':
                        s = None
                    elif others == 'same':
                        s = fill(shape, dt, r + 1)
                    else:
                        s = np.ones((4, 2), dtype=np.float32)
                    return Bcast_from_root(s, comm, root)
                return simmpi.World(size, body, mode)
            verify(rec, 'bcast', make, lambda r: a,
                   dict(ranks=size, root=root, shape=shape,
                        dtype=np.dtype(dt).name, layout=layout,
                        others=others), full)
            rec.check(same(np.asarray(src), a), 'bcast:input', 'input changed')
    rec.sample(ranks=size, root=root, shape=shape)


def unit_bcast_order(rec, size, root):
    """Consecutive calls with different roots do not mix."""
    A = fill((2, 2), float, 1)
    B = fill((3,), np.int64, 2)
    for root2 in range(size):
        def make(mode):
            def body(comm, r):
                x = Bcast_from_root(A if r == root else None, comm, root)
                y = Bcast_from_root(B if r == root2 else None, comm,
                                    root=root2)
                return x, y
            return simmpi.World(size, body, mode)
        verify(rec, 'bcast2', make, lambda r: (A, B),
               dict(ranks=size, roots=(root, root2)))


def unit_gather(rec, size, root, tail, counts, big):
    for rows in itertools.product(counts, repeat=size):
        for dt in DTYPES:
            parts = [fill((n,) + tail, dt, r) for r, n in enumerate(rows)]
            want = np.concatenate(parts)
            for layout in LAYOUTS if dt is np.float64 else ('C', 'F'):
                src = [lay(p, layout) for p in parts]
                full = (layout == 'C' and (big or dt is np.float64)
                        and (size < 4 or sum(rows) <= 2))

                def make(mode):
                    def body(comm, r):
                        return Gatherv_rows(src[r], comm, root)
                    return simmpi.World(size, body, mode)
                verify(rec, 'gather', make,
                       lambda r: want if r == root else None,
                       dict(ranks=size, root=root, rows=rows, tail=tail,
                            dtype=np.dtype(dt).name, layout=layout), full)
                rec.check(all(same(np.asarray(s), p)
                              for s, p in zip(src, parts)), 'gather:input',
                          'input changed')
    rec.sample(ranks=size, root=root, tail=tail, last=rows)


FILES = (((5, 3), (5,)), ((1, 1), (1,)), ((0, 2), (0,)), ((4,), (4, 1)),
         ((2, 3, 2), (2,)), ((3, 2), (3, 2)), ((2, 2), ()), ((2, 0), (2,)),
         ((1, 4), (7,)))


def unit_load(rec, size, root, big):
    d = tempfile.mkdtemp(prefix='c12-')
    try:
        for (xs, ys), (dx, dy) in itertools.product(
                FILES, itertools.product(DTYPES, repeat=2)):
            X, y = fill(xs, dx, 1), fill(ys, dy, 2)
            path = os.path.join(d, 'a.h5')
            with h5py.File(path, 'w') as f:
                f['X'], f['y'], f['A'], f['b'] = y, X, X, y
            with open(path, 'rb') as f:
                before = f.read()
            for keys in (('A', 'b'), ('X', 'y')):
                def make(mode):
                    def body(comm, r):
                        # only the root may need the file
                        p = path if r == root else os.path.join(d, 'none')
                        if keys == ('X', 'y'):
                            return load_data_MPI(p, comm=comm, root=root)
                        return load_data_MPI(p, X_key='A', y_key='b',
                                             comm=comm, root=root)
                    return simmpi.World(size, body, mode)
                want = (X, y) if keys == ('A', 'b') else (y, X)
                if any(w.shape == () for w in want):
                    continue
                verify(rec, 'load', make, lambda r: want,
                       dict(ranks=size, root=root, shapes=(xs, ys),
                            dtypes=(np.dtype(dx).name, np.dtype(dy).name)),
                       (dx == dy and keys == ('A', 'b')
                        and (big or (xs, ys) == FILES[0])))
            with open(path, 'rb') as f:
                rec.check(f.read() == before, 'load:file', 'file changed')
    finally:
        shutil.rmtree(d)


def unit_reject(rec, size):
    """Types and objects that cannot be sent are rejected on every rank."""
    bad = [np.zeros(3, bool), np.zeros(3, complex), np.array(['a', 'b']),
           np.array([None, 1]), np.zeros(2, 'M8[s]'), np.zeros(2, np.float16),
           np.zeros(2, np.longdouble)]
    objs = [[1., 2.], (1,), 3., 'text', {}, range(3), memoryview(b'ab')]
    for a, root in itertools.product(bad + objs, range(size)):
        def make(mode):
            def body(comm, r):
                return Bcast_from_root(a, comm, root)
            return simmpi.World(size, body, mode)

        def makeg(mode):
            def body(comm, r):
                return Gatherv_rows(a, comm, root)
            return simmpi.World(size, body, mode)

        def judge(w, verdict):
            ok = verdict[0] == 'error' and all(
                isinstance(e, Exception) and not isinstance(
                    e, simmpi.MPIFault) for e in w.error)
            sent = [o['kind'] for p in w.posted for o in p
                    if o['kind'] in ('Bcast', 'Gatherv')]
            if ok and not sent:
                return
            # a helper that can carry the type after all must be exact
            res = [w.result[r] for r in range(size)
                   if w.result[r] is not None]
            rec.check(verdict[0] == 'ok' and isinstance(a, np.ndarray) and
                      all(np.array_equal(x[:len(a)], a) and x.dtype == a.dtype
                          for x in res),
                      'reject', '%r: %s %s (sent %s)' % (a, verdict, res, sent),
                      root=root)
        for m in (make, makeg):
            for mode in ('sync', 'eager'):
                simmpi.explore(lambda: m(mode), rec, judge=judge)
    for o in objs:
        try:
            check_valid_ndarray(o)
            rec.fail('reject:check', '%r accepted' % (o,))
        except ValueError:
            pass
    rec.check(check_valid_ndarray(None) is None, 'reject:none', '')


def unit_valid(rec):
    for shape, dt, layout in itertools.product(
            SHAPES, DTYPES + (bool, complex), LAYOUTS):
        a = fill(shape, float).astype(dt) if dt in (bool, complex) \
            else fill(shape, dt)
        src = lay(a, layout)
        got = check_valid_ndarray(src)
        rec.step()
        rec.state(shape, np.dtype(dt).name, layout)
        rec.check(isinstance(got, np.ndarray) and got.flags.c_contiguous
                  and got.dtype == a.dtype and got.shape == a.shape
                  and got.tobytes() == a.tobytes(), 'valid',
                  '%r for %r' % (got, src))
        rec.check(np.asarray(src).tobytes() == a.tobytes(), 'valid:input', '')


# --- conformance of the simulator -------------------------------------------

def scenarios(size):
    """Picklable scenarios run both simulated and for real."""
    out = []
    for root in range(size):
        for shape in SHAPES:
            for dt in DTYPES:
                for layout in ('C', 'F', 'strided'):
                    out.append(('bcast', root, shape, np.dtype(dt).name,
                                layout))
        for rows in itertools.product((0, 1, 2), repeat=size):
            for tail in ((), (3,), (2, 2), (2, 1, 3)):
                for layout in ('C', 'F'):
                    out.append(('gather', root, rows, tail, layout))
    for kind in RAW:
        for root in range(size):
            for dt in ('f8', 'i4', 'u1'):
                out.append(('raw', kind, root, dt))
    return out


RAW = ('Bcast', 'Gather', 'Gatherv', 'Allgather', 'Allgatherv', 'Scatter',
       'Scatterv', 'Reduce', 'Allreduce', 'in-place Allgather',
       'in-place Reduce', 'in-place Allreduce', 'bcast', 'gather',
       'allgather', 'scatter', 'reduce', 'allreduce', 'Dup')


def raw(kind, root, dt, comm):
    """One collective itself, to bind the simulator to the library."""
    r, n = comm.Get_rank(), comm.Get_size()
    me = (np.arange(2) + 10 * r + 1).astype(dt)
    here = r == root
    cnt = [q + 1 for q in range(n)]
    all_ = np.zeros(2 * n, dt)
    var = np.zeros(sum(cnt), dt)
    send = np.arange(sum(cnt)).astype(dt)
    own = np.full(r + 1, r + 3).astype(dt)
    if kind == 'Dup':
        c = comm.Dup()
        c.Bcast(me, root=root)
        c.Free()
        return me
    if kind == 'Bcast':
        comm.Bcast(me, root=root)
        return me
    if kind == 'Gather':
        comm.Gather(me, all_ if here else None, root=root)
        return all_
    if kind == 'Gatherv':
        comm.Gatherv(own, (var, cnt) if here else None, root=root)
        return var
    if kind == 'Allgather':
        comm.Allgather(me, all_)
        return all_
    if kind == 'Allgatherv':
        comm.Allgatherv(own, (var, cnt))
        return var
    if kind == 'Scatter':
        comm.Scatter(np.arange(2 * n).astype(dt) if here else None, me,
                     root=root)
        return me
    if kind == 'Scatterv':
        comm.Scatterv((send, cnt) if here else None, own, root=root)
        return own
    if kind in ('Reduce', 'Allreduce'):
        out = np.zeros_like(me)
        if kind == 'Reduce':
            comm.Reduce(me, out if here else None, op=MPI.SUM, root=root)
        else:
            comm.Allreduce(me, out, op=MPI.MAX)
        return out
    if kind == 'in-place Allgather':
        all_[2 * r:2 * r + 2] = me
        comm.Allgather(MPI.IN_PLACE, all_)
        return all_
    if kind == 'in-place Reduce':
        if here:
            comm.Reduce(MPI.IN_PLACE, me, op=MPI.SUM, root=root)
        else:
            comm.Reduce(me, None, op=MPI.SUM, root=root)
        return me
    if kind == 'in-place Allreduce':
        comm.Allreduce(MPI.IN_PLACE, me, op=MPI.SUM)
        return me
    if kind == 'bcast':
        return comm.bcast(me, root=root)
    if kind == 'scatter':
        return comm.scatter([send[:q + 1] for q in range(n)] if here
                            else None, root=root)
    if kind in ('gather', 'reduce'):
        out = getattr(comm, kind)(me, root=root)
    else:
        out = getattr(comm, kind)(me)
    return None if out is None else np.array(out)


def play(sc, comm, r):
    if sc[0] == 'raw':
        return raw(*sc[1:], MPI.COMM_WORLD if comm is None else comm)
    if sc[0] == 'bcast':
        _, root, shape, dt, layout = sc
        a = lay(fill(shape, dt), layout)
        return Bcast_from_root(a if r == root else None, comm, root)
    _, root, rows, tail, layout = sc
    return Gatherv_rows(lay(fill((rows[r],) + tail, float, r), layout), comm,
                        root)


REAL = '''
import sys, os, pickle
sys.path.insert(0, %(verif)r)
import mc.env
import mpi4py
mpi4py.rc.initialize = True
mpi4py.rc.finalize = True
import importlib
from mpi4py import MPI
if not MPI.Is_initialized():
    MPI.Init()
from checks import c12
comm = MPI.COMM_WORLD
out = []
for i, sc in enumerate(c12.scenarios(comm.size)):
    use = None if i %% 2 else comm        # also the default communicator
    try:
        r = c12.play(sc, use, comm.rank)
    except Exception as e:
        r = repr(e)
    out.append(r)
with open(os.path.join(%(d)r, 'r%%d' %% comm.rank), 'wb') as f:
    pickle.dump(out, f)
comm.Barrier()
MPI.Finalize()
os._exit(0)
'''


def mpirun(script, size, d, timeout=120):
    path = os.path.join(d, 'real.py')
    with open(path, 'w') as f:
        f.write(script)
    e = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1',
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', TMPDIR=d,
             OMPI_MCA_btl_vader_single_copy_mechanism='none')
    p = subprocess.Popen(
        ['mpirun', '--allow-run-as-root', '--oversubscribe', '-n', str(size),
         sys.executable, '-W', 'ignore', path], env=e, cwd=env.VERIF,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        p.terminate()
        try:
            p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        return None, 'timed out'


def unit_real(rec, size):
    if shutil.which('mpirun') is None:
        rec.note('mpirun-absent')
        rec.step()
        return
    d = tempfile.mkdtemp(prefix='c12-')
    try:
        code, out = mpirun(REAL % dict(verif=env.VERIF, d=d), size, d)
        scs = scenarios(size)
        files = [os.path.join(d, 'r%d' % r) for r in range(size)]
        if not all(os.path.exists(f) for f in files):
            # no result from the real library: nothing to compare with
            rec.note('mpirun-no-result')
            rec.sample(mpirun=out[-300:])
            rec.step()
            return
        real = [pickle.load(open(f, 'rb')) for f in files]
    finally:
        shutil.rmtree(d)
    for i, sc in enumerate(scs):
        got = []

        def judge(w, verdict):
            got.append([w.result[r] if w.error[r] is None
                        else repr(w.error[r]) for r in range(size)])
        simmpi.explore(lambda: simmpi.World(
            size, lambda comm, r: play(sc, comm, r), 'sync'), None, limit=1,
            judge=judge)
        rec.step()
        rec.trace()
        for r in range(size):
            a, b = got[0][r], real[r][i]
            ok = (a is None and b is None) or (
                isinstance(a, np.ndarray) and same(b, a))
            rec.check(ok, 'conformance', 'rank %d: mpirun gives %r, the '
                      'simulator %r' % (r, b, a), scenario=sc)
    rec.note('mpirun-scenarios', len(scs))


def units(tier):
    big = tier == 'thorough'
    u = [('valid', unit_valid, ())]
    for size in range(1, 4):
        u.append(('real-%d' % size, unit_real, (size,)))
    for size in range(1, 6 if big else 4):
        u.append(('reject-%d' % size, unit_reject, (size,)))
        for root in range(size):
            for shape in SHAPES:
                u.append(('bcast-%d-%d-%s' % (size, root, shape), unit_bcast,
                          (size, root, shape, big and size < 4)))
            if size < 5:
                u.append(('order-%d-%d' % (size, root), unit_bcast_order,
                          (size, root)))
            u.append(('load-%d-%d' % (size, root), unit_load, (size, root, big and size < 4)))
            if size > 4:
                continue
            for tail in ((), (3,), (2, 2), (1,), (0,), (2, 1, 3)):
                counts = (0, 1, 2, 3) if big and size < 4 else (0, 1, 2)
                u.append(('gather-%d-%d-%s' % (size, root, tail), unit_gather,
                          (size, root, tail, counts, big and size < 4)))
    return u
