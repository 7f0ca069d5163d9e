"""A simulated communicator under an explicit scheduler.

Every rank runs in its own thread, but only the rank chosen by the scheduler
runs, up to its next communication call.  Two completion semantics bracket what
an MPI library may do: 'sync' (a collective completes on no rank before every
rank has entered it) and 'eager' (a rank leaves as soon as its own part can be
done).  `explore(world_factory)` visits every reachable state of the ranks
(position and received data of each rank) and takes every transition once;
ranks share nothing else, so this covers all schedules.
"""
import pickle
import threading

import numpy as np
from mpi4py import MPI

from .core import digest


class Abort(BaseException):
    pass


class MPIFault(Exception):
    """What a real library would turn into an abort or corrupted data."""


_T = None


def typetable():
    global _T
    if _T is None:
        _T = []
        for name, dt in (('FLOAT', 'f4'), ('DOUBLE', 'f8'), ('LONG', 'l'),
                         ('INT', 'i'), ('SHORT', 'h'), ('LONG_LONG', 'q'),
                         ('UNSIGNED', 'I'), ('UNSIGNED_LONG', 'L'),
                         ('UNSIGNED_CHAR', 'B'), ('SIGNED_CHAR', 'b'),
                         ('BYTE', 'B'), ('CHAR', 'b'), ('BOOL', '?'),
                         ('C_BOOL', '?'), ('CXX_BOOL', '?'), ('INT8_T', 'i1'),
                         ('INT16_T', 'i2'), ('INT32_T', 'i4'),
                         ('INT64_T', 'i8'), ('UINT8_T', 'u1'),
                         ('UINT16_T', 'u2'), ('UINT32_T', 'u4'),
                         ('UINT64_T', 'u8'), ('COMPLEX', 'F'),
                         ('DOUBLE_COMPLEX', 'D'), ('C_DOUBLE_COMPLEX', 'D'),
                         ('C_FLOAT_COMPLEX', 'F')):
            if hasattr(MPI, name):
                _T.append((getattr(MPI, name), np.dtype(dt)))
    return _T


def as_dtype(t):
    if isinstance(t, (str, np.dtype, type)):
        return np.dtype(t)
    for m, dt in typetable():
        if m == t:
            return dt
    raise MPIFault('unknown datatype %r' % (t,))


class Buf(object):
    """A buffer specification as mpi4py understands it."""

    def __init__(self, spec):
        self.arr = None
        counts = displs = typ = None
        if isinstance(spec, (list, tuple)):
            spec = list(spec)
            obj = spec.pop(0)
            if spec and not isinstance(spec[-1], (int, np.integer, list, tuple,
                                                  np.ndarray)) \
                    and spec[-1] is not None:
                typ = spec.pop()
            spec = [s for s in spec]
            if spec:
                counts = spec.pop(0)
                if isinstance(counts, tuple) and len(counts) == 2 and \
                        not isinstance(counts[0], (int, np.integer)):
                    counts, displs = counts
            if spec:
                displs = spec.pop(0)
        else:
            obj = spec
        self.none = obj is None
        if self.none:
            return
        if not isinstance(obj, np.ndarray):
            obj = np.asarray(memoryview(obj))
        a = obj
        if a.dtype == object:
            raise MPIFault('object array in a buffer operation')
        if not (a.flags.c_contiguous or a.flags.f_contiguous):
            raise MPIFault('buffer is not contiguous')
        self.arr = a
        self.dtype = as_dtype(typ) if typ is not None else a.dtype
        self.nbytes = a.nbytes
        ext = self.dtype.itemsize
        if counts is None and a.nbytes % ext:
            raise MPIFault('%d bytes are no multiple of %s'
                           % (a.nbytes, self.dtype))
        if counts is None:
            self.counts = None
            self.count = a.nbytes // ext
        elif isinstance(counts, (int, np.integer)):
            self.counts, self.count = None, int(counts)
        else:
            self.counts = [int(c) for c in counts]
            self.count = sum(self.counts)
        if displs is not None and not isinstance(displs, (int, np.integer)):
            self.displs = [int(d) for d in displs]
        elif self.counts is not None:
            self.displs = list(np.cumsum([0] + self.counts[:-1]))
        else:
            self.displs = None
        if self.counts is None and self.count * ext > a.nbytes:
            raise MPIFault('count %d of %s exceeds the buffer of %d bytes'
                           % (self.count, self.dtype, a.nbytes))

    def raw(self):
        """The bytes in memory order."""
        a = self.arr
        o = 'C' if a.flags.c_contiguous else 'F'
        return a.ravel(order=o).tobytes()

    def send(self):
        return self.dtype, self.raw()[:self.count * self.dtype.itemsize]

    def put(self, offset, data):
        a = self.arr
        if not a.flags.writeable:
            raise MPIFault('receive buffer is read-only')
        if offset < 0 or offset + len(data) > a.nbytes:
            raise MPIFault('message of %d bytes at offset %d overruns the '
                           'buffer of %d bytes' % (len(data), offset,
                                                   a.nbytes))
        flat = a.reshape(-1, order='C' if a.flags.c_contiguous else 'F')
        flat = flat.view(np.uint8)
        flat[offset:offset + len(data)] = np.frombuffer(data, np.uint8)


def sig(dt):
    return (dt.kind, dt.itemsize)


class Comm(object):
    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    name = 'sim'

    def Get_name(self):
        return 'sim'

    def _c(self, kind, root=None, payload=None, into=None, op=None):
        if root is not None:
            if isinstance(root, (float, type(None))) or \
                    not 0 <= int(root) < self.size:
                raise MPIFault('invalid root %r' % (root,))
            root = int(root)
        return self.world.collective(self.rank, kind, root, payload, into, op)

    # objects
    def bcast(self, obj, root=0):
        return self._c('bcast', root, pickle.dumps(obj)
                       if self.rank == root else None)

    def gather(self, sendobj, root=0):
        return self._c('gather', root, pickle.dumps(sendobj))

    def allgather(self, sendobj):
        return self._c('allgather', None, pickle.dumps(sendobj))

    def scatter(self, sendobj, root=0):
        p = None
        if self.rank == root:
            p = [pickle.dumps(o) for o in sendobj]
            if len(p) != self.size:
                raise MPIFault('scatter of %d items' % len(p))
        return self._c('scatter', root, p)

    def reduce(self, sendobj, op=MPI.SUM, root=0):
        return self._c('reduce', root, pickle.dumps(sendobj), op=op)

    def allreduce(self, sendobj, op=MPI.SUM):
        return self._c('allreduce', None, pickle.dumps(sendobj), op=op)

    def barrier(self):
        return self._c('barrier')

    Barrier = barrier

    # buffers
    def Bcast(self, buf, root=0):
        b = Buf(buf)
        if b.none:
            raise MPIFault('Bcast without a buffer')
        return self._c('Bcast', root, b.send(), b)

    def Gatherv(self, sendbuf, recvbuf, root=0, kind='Gatherv'):
        s = Buf(sendbuf)
        r = Buf(recvbuf) if self.rank == root else None
        if s.none or (r is not None and r.none):
            raise MPIFault('Gatherv without a buffer')
        return self._c('Gatherv', root, s.send(), r)

    Gather = Gatherv

    def Allgatherv(self, sendbuf, recvbuf):
        r = Buf(recvbuf)
        if sendbuf is MPI.IN_PLACE:
            return self._c('Allgatherv', None, self._own(r), r)
        return self._c('Allgatherv', None, Buf(sendbuf).send(), r)

    Allgather = Allgatherv

    def _own(self, r):
        """The rank's own part of a gathering buffer."""
        ext = r.dtype.itemsize
        if r.counts is None:
            n = r.count // self.size
            o = n * self.rank
        else:
            n, o = r.counts[self.rank], r.displs[self.rank]
        return r.dtype, r.raw()[o * ext:(o + n) * ext]

    def Scatterv(self, sendbuf, recvbuf, root=0):
        r, p = Buf(recvbuf), None
        if r.none:
            raise MPIFault('Scatterv without a buffer')
        if self.rank == root:
            s = Buf(sendbuf)
            if s.none:
                raise MPIFault('Scatterv without a buffer')
            ext, raw = s.dtype.itemsize, s.raw()
            counts, displs = s.counts, s.displs
            if counts is None:
                n = s.count // self.size
                counts, displs = [n] * self.size, range(0, n * self.size, n) \
                    if n else [0] * self.size
            if len(counts) != self.size or len(displs) != self.size:
                raise MPIFault('%d counts for %d ranks'
                               % (len(counts), self.size))
            for o, n in zip(displs, counts):
                if o < 0 or n < 0 or (o + n) * ext > len(raw):
                    raise MPIFault('%d items at %d leave the buffer of %d '
                                   'bytes' % (n, o, len(raw)))
            p = s.dtype, [raw[o * ext:(o + n) * ext]
                          for o, n in zip(displs, counts)]
        return self._c('Scatterv', root, p, r)

    Scatter = Scatterv

    def Reduce(self, sendbuf, recvbuf, op=MPI.SUM, root=0):
        r = Buf(recvbuf) if self.rank == root else None
        s = r if sendbuf is MPI.IN_PLACE and r is not None else Buf(sendbuf)
        return self._c('Reduce', root, s.send(), r, op)

    def Allreduce(self, sendbuf, recvbuf, op=MPI.SUM):
        r = Buf(recvbuf)
        s = r if sendbuf is MPI.IN_PLACE else Buf(sendbuf)
        return self._c('Allreduce', None, s.send(), r, op)

    def Dup(self, info=None):
        self._c('Dup')
        return self

    def Free(self):
        self._c('Free')


def combine(op, vals):
    out = vals[0]
    for v in vals[1:]:
        if op == MPI.SUM:
            out = out + v
        elif op == MPI.PROD:
            out = out * v
        elif op == MPI.MAX:
            out = np.maximum(out, v)
        elif op == MPI.MIN:
            out = np.minimum(out, v)
        elif op == MPI.LAND:
            out = np.logical_and(out, v)
        elif op == MPI.LOR:
            out = np.logical_or(out, v)
        else:
            raise MPIFault('reduction %r' % (op,))
    return out


class World(object):
    """`body(comm, rank)` on every rank."""

    def __init__(self, size, body, mode='sync'):
        self.size, self.body, self.mode = size, body, mode
        self.posted = [[] for _ in range(size)]     # ops entered, per rank
        self.passed = [0] * size                    # ops left, per rank
        self.done = [False] * size
        self.result = [None] * size
        self.error = [None] * size
        self.seen = [[] for _ in range(size)]       # received data, per rank
        self.turn = [threading.Semaphore(0) for _ in range(size)]
        self.back = threading.Semaphore(0)
        self.abort = False
        self.fault = None
        self.path = []

    # --- on the rank's thread
    def collective(self, rank, kind, root, payload, into, op):
        ent = dict(kind=kind, root=root, payload=payload, into=into, op=op)
        i = len(self.posted[rank])
        self.posted[rank].append(ent)
        for r in range(self.size):
            if len(self.posted[r]) > i:
                o = self.posted[r][i]
                if (o['kind'], o['root']) != (kind, root):
                    self.fault = ('mismatch', 'call %d: rank %d calls %s(root='
                                  '%s), rank %d %s(root=%s)' % (
                                      i, r, o['kind'], o['root'], rank, kind,
                                      root))
        self.back.release()
        self.turn[rank].acquire()
        if self.abort:
            raise Abort()
        out, seen = self.complete(rank, i)
        self.passed[rank] += 1
        self.seen[rank].append(digest(seen))
        return out

    def thread(self, rank):
        self.turn[rank].acquire()
        try:
            if not self.abort:
                self.result[rank] = self.body(Comm(self, rank), rank)
        except Abort:
            pass
        except BaseException as e:
            self.error[rank] = e
        self.done[rank] = True
        self.back.release()

    # --- rules
    def enabled(self, r):
        if self.done[r]:
            return False
        if len(self.posted[r]) == self.passed[r]:
            return not self.posted[r]               # not started
        i = self.passed[r]
        ent = self.posted[r][i]
        here = [len(p) > i for p in self.posted]
        if all(here):
            return True
        if self.mode == 'sync':
            return False
        k, root = ent['kind'], ent['root']
        if k in ('bcast', 'Bcast', 'scatter', 'Scatterv'):
            return r == root or here[root]
        if k in ('gather', 'Gatherv', 'reduce', 'Reduce'):
            return r != root
        return False

    def complete(self, r, i):
        ent = self.posted[r][i]
        k, root = ent['kind'], ent['root']
        at = lambda q: self.posted[q][i]
        if k in ('barrier', 'Dup', 'Free'):
            return None, None
        if k == 'bcast':
            p = at(root)['payload']
            return pickle.loads(p), p
        if k == 'scatter':
            p = at(root)['payload'][r]
            return pickle.loads(p), p
        if k in ('gather', 'reduce'):
            if r != root:
                return None, None
            ps = [at(q)['payload'] for q in range(self.size)]
            vs = [pickle.loads(p) for p in ps]
            return (vs if k == 'gather' else combine(ent['op'], vs)), ps
        if k in ('allgather', 'allreduce'):
            ps = [at(q)['payload'] for q in range(self.size)]
            vs = [pickle.loads(p) for p in ps]
            return (vs if k == 'allgather' else combine(ent['op'], vs)), ps
        if k == 'Bcast':
            dt, data = at(root)['payload']
            b = ent['into']
            if r != root:
                self.match(sig(dt), len(data), sig(b.dtype),
                           b.count * b.dtype.itemsize, k, r)
                b.put(0, data)
            return None, data
        if k == 'Scatterv':
            dt, parts = at(root)['payload']
            b = ent['into']
            self.match(sig(dt), len(parts[r]), sig(b.dtype),
                       b.count * b.dtype.itemsize, k, r)
            b.put(0, parts[r])
            return None, parts[r]
        if k in ('Gatherv', 'Allgatherv'):
            if k == 'Gatherv' and r != root:
                return None, None
            b = ent['into']
            ext = b.dtype.itemsize
            counts, displs = b.counts, b.displs
            if counts is None:
                each = b.count // self.size
                counts = [each] * self.size
                displs = [each * q for q in range(self.size)]
            if len(counts) != self.size or len(displs) != self.size:
                raise MPIFault('%d counts for %d ranks'
                               % (len(counts), self.size))
            got = []
            for q in range(self.size):
                dt, data = at(q)['payload']
                self.match(sig(dt), len(data), sig(b.dtype), counts[q] * ext,
                           k, q)
                b.put(displs[q] * ext, data)
                got.append(data)
            return None, got
        if k in ('Reduce', 'Allreduce'):
            if k == 'Reduce' and r != root:
                return None, None
            b = ent['into']
            vs = []
            for q in range(self.size):
                dt, data = at(q)['payload']
                self.match(sig(dt), len(data), sig(b.dtype),
                           b.count * b.dtype.itemsize, k, q)
                vs.append(np.frombuffer(data, dt))
            out = combine(ent['op'], vs).astype(b.dtype).tobytes()
            b.put(0, out)
            return None, out
        raise MPIFault('operation %s' % k)

    @staticmethod
    def match(s1, n1, s2, n2, k, q):
        if s1 != s2 or n1 != n2:
            raise MPIFault('%s: rank %d sends or expects %d bytes of %s, the '
                           'other side %d bytes of %s'
                           % (k, q, n1, s1, n2, s2))

    def state(self):
        return digest(self.mode, [(len(p), self.passed[r], self.done[r],
                                   self.seen[r], repr(self.error[r]))
                                  for r, p in enumerate(self.posted)])

    def run(self, pick):
        """`pick(state, enabled) -> rank`; returns the verdict."""
        ts = [threading.Thread(target=self.thread, args=(r,), daemon=True)
              for r in range(self.size)]
        for t in ts:
            t.start()
        verdict = ('ok', '')
        try:
            while True:
                en = [r for r in range(self.size) if self.enabled(r)]
                if not en:
                    break
                r = pick(self.state(), en)
                self.path.append(r)
                self.turn[r].release()
                self.back.acquire()
                if self.fault:
                    break
        finally:
            self.abort = True
            for r in range(self.size):
                if not self.done[r]:
                    self.turn[r].release()
            stuck = [r for r in range(self.size) if not self.done[r]]
            for t in ts:
                t.join(20)
        err = [(r, e) for r, e in enumerate(self.error) if e is not None]
        if self.fault:
            verdict = self.fault
        elif err:
            verdict = ('error', '; '.join('rank %d: %r' % (r, e)
                                          for r, e in err))
        elif stuck:
            verdict = ('deadlock', 'ranks %s never return; calls made: %s' % (
                stuck, [['%s' % o['kind'] for o in p][-3:]
                        for p in self.posted]))
        else:
            n = {len(p) for p in self.posted}
            if len(n) > 1:
                verdict = ('unmatched', 'ranks make %s calls'
                           % [len(p) for p in self.posted])
        return verdict


def explore(make, rec=None, limit=4000, judge=None):
    """Every reachable state and transition of `make() -> World`.

    `judge(world, verdict)` is called for every complete schedule.
    """
    expanded = set()
    stack = [[]]
    runs = 0
    capped = False
    while stack:
        if runs >= limit:
            capped = True
            break
        prefix = stack.pop()
        w = make()
        new = []

        def pick(state, en):
            i = len(w.path)
            if i < len(prefix):
                if prefix[i] not in en:
                    raise RuntimeError('schedule %s not replayable' % prefix)
                if i == len(prefix) - 1:
                    return prefix[i]
                return prefix[i]
            if state not in expanded:
                expanded.add(state)
                for r in en[1:]:
                    new.append(w.path + [r])
                if rec is not None:
                    rec.state(state)
            if rec is not None:
                rec.step()
            return en[0]
        verdict = w.run(pick)
        runs += 1
        if rec is not None:
            rec.trace()
        judge(w, verdict)
        stack.extend(reversed(new))
    if capped and rec is not None:
        rec.capped = True
    return runs, capped
