"""Fits on a simulated communicator under one fixed schedule.

For the checks of single properties: that the result is the same on all ranks,
for every schedule, is decided by C11.
"""
from mc import simmpi


def on_ranks(rec, size, body, mode='sync'):
    """Results of `body(comm, rank)` per rank, or None when the run failed.

    `size` 1 means no communicator at all.
    """
    if size == 1:
        return [body(None, 0)]
    w = simmpi.World(size, body, mode)
    verdict = w.run(lambda state, en: en[-1])
    if verdict[0] != 'ok':
        if rec.check(verdict[0] != 'error', 'distributed:error', verdict[1],
                     ranks=size):
            rec.note('distributed-%s' % verdict[0])
        return None
    return w.result
