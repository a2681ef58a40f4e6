"""Poisoned allocations: reads of memory nobody has written become visible.

The contents of ``numpy.empty`` are undefined. Instead of what happens to be in
recycled memory (often the right values of a previous call), the code under test
gets NaN or absurd integers.
"""

import numpy as np

_empty, _empty_like = np.empty, np.empty_like


def fill(a):
    kind = a.dtype.kind
    if not a.size or not a.flags.writeable:
        return a
    if kind == 'f':
        a.fill(np.nan)
    elif kind == 'c':
        a.fill(complex(np.nan, np.nan))
    elif kind == 'i':
        a.fill(np.iinfo(a.dtype).min // 3 * 2 + 7)
    elif kind == 'u':
        a.fill(np.iinfo(a.dtype).max // 3 * 2 + 7)
    return a


def empty(*args, **kwargs):
    return fill(_empty(*args, **kwargs))


def empty_like(*args, **kwargs):
    return fill(_empty_like(*args, **kwargs))


def install():
    np.empty, np.empty_like = empty, empty_like
