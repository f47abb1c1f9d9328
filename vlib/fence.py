"""
Arrays in guarded memory: the pages next to the data cannot be accessed, and
the data itself can be made write-protected for the memory management unit
(numpy still believes that the array is writeable).  An access outside, or a
write, ends the process with a signal, which the supervisor reports.
"""
import ctypes
import mmap

import numpy as np

PAGE = mmap.PAGESIZE
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
NONE, READ, WRITE = 0, 1, 2


def _protect(address, size, how):
    if _libc.mprotect(address, size, how):
        raise OSError(ctypes.get_errno(), "mprotect")


class Fenced:
    """A guarded copy of a one-dimensional uint64 array."""

    def __init__(self, values, at_end=True, frozen=True, fill=0):
        values = np.asarray(values, dtype=np.uint64)
        size = 8 * len(values)
        self.pages = max(1, -(-size // PAGE))
        self.map = mmap.mmap(-1, (self.pages + 2) * PAGE)
        whole = np.frombuffer(self.map, dtype=np.uint64)
        self.base = whole.ctypes.data
        first = PAGE // 8
        last = first + self.pages * PAGE // 8
        whole[first:last] = fill
        start = last - len(values) if at_end else first
        self.array = whole[start:start + len(values)]
        self.array[...] = values
        _protect(self.base, PAGE, NONE)
        _protect(self.base + (self.pages + 1) * PAGE, PAGE, NONE)
        if frozen:
            _protect(self.base + PAGE, self.pages * PAGE, READ)
        self.frozen = frozen

    def close(self):
        """Make the memory ordinary again (the array must not be used after)."""
        _protect(self.base, (self.pages + 2) * PAGE, READ | WRITE)
