"""Arrays placed against an inaccessible page, so that a stray read or write kills the process."""

import ctypes
import mmap

import numpy as np

_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
PAGE = mmap.PAGESIZE


class Fence:
    """Allocates fenced copies; `at` = 'end' or 'start' says which side the page is on."""

    def __init__(self, at):
        self.at = at
        self.maps = []
        self.n = 0

    def __call__(self, x):
        x = np.ascontiguousarray(x)
        size = max(x.nbytes, 1)
        pages = -(-size // PAGE)
        total = (pages + 2) * PAGE
        base = _libc.mmap(None, total, mmap.PROT_READ | mmap.PROT_WRITE, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
        if base is None or base == ctypes.c_void_p(-1).value:
            raise MemoryError("mmap")
        if _libc.mprotect(base, PAGE, 0) or _libc.mprotect(base + (pages + 1) * PAGE, PAGE, 0):
            raise MemoryError("mprotect")
        self.maps.append((base, total))
        at = base + (pages + 1) * PAGE - x.nbytes if self.at == "end" else base + PAGE
        buf = (ctypes.c_char * x.nbytes).from_address(at)
        y = np.frombuffer(buf, dtype=x.dtype, count=x.size).reshape(x.shape) if x.size else x.copy()
        y[...] = x
        self.n += 1
        return y

    def free(self):
        for base, total in self.maps:
            _libc.munmap(base, total)
        self.maps = []
