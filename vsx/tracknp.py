"""Races of parallel loops on the real code (replay): every iteration runs from
the memory state at loop entry ('isolated'), the cells it changed are recorded,
and all changes are merged when the loop ends.  A cell changed by two
iterations is a conflict; an iteration that needs another one's writes shows as
a different result."""
import sys
import numpy as np


class Loop(object):
    def __init__(self, h):
        self.h = h
        self.cur = None
        f = sys._getframe(1)
        while f is not None and '/convst/' not in f.f_code.co_filename:
            f = f.f_back
        self.arrays = []
        if f is not None:
            self.where = '%s:%d' % (f.f_code.co_filename.split('/convst/')[-1], f.f_lineno)
            seen = set()
            for v in list(f.f_locals.values()):
                for a in (v if isinstance(v, (tuple, list)) else [v]):
                    while isinstance(a, np.ndarray) and isinstance(a.base, np.ndarray):
                        a = a.base
                    if isinstance(a, np.ndarray) and id(a) not in seen and a.flags.writeable:
                        seen.add(id(a))
                        self.arrays.append(a)
        self.entry = [a.copy() for a in self.arrays]
        self.owner = [{} for _ in self.arrays]

    def close(self):
        if self.cur is None:
            return
        for a, e, o in zip(self.arrays, self.entry, self.owner):
            with np.errstate(all='ignore'):
                ch = (a != e) & ~((a != a) & (e != e))
            for ix in zip(*np.nonzero(ch)):
                if ix in o:
                    if len(self.h._conf) < 20:
                        self.h._conf.append(('write', self.where, self.cur, [o[ix][0]]))
                o[ix] = (self.cur, a[ix])
            a[...] = e
        self.cur = None


def begin(h):
    h._loops = getattr(h, '_loops', [])
    h._loops.append(Loop(h))


def iteration(h, i):
    lp = h._loops[-1]
    lp.close()
    lp.cur = i


def end(h):
    lp = h._loops.pop()
    lp.close()
    for a, o in zip(lp.arrays, lp.owner):
        for ix, (_, v) in o.items():
            a[ix] = v
