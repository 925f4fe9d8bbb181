"""Controlled random source.

Installs, under NumPy's global random functions, a bit generator whose every
answer is chosen by the harness: the random numbers the code under test draws
become the nondeterminism that is enumerated.  Doubles are answered from a
given sequence; asking for more, or for raw integers, is recorded.
"""
import ctypes
import itertools
import threading

import numpy as np

_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_F64 = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)

ALMOST1 = 1. - 2.**-53


class _Bitgen(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("next_uint64", _U64), ("next_uint32", _U32),
                ("next_double", _F64), ("next_raw", _U64)]


class Controlled:
    def __init__(self):
        self.answers = []
        self.pos = 0
        self.over = 0
        self.ints = 0
        self._keep = (_U64(self._u64), _U32(self._u32), _F64(self._dbl))
        self._bg = _Bitgen(None, self._keep[0], self._keep[1], self._keep[2], self._keep[0])
        new = ctypes.pythonapi.PyCapsule_New
        new.restype = ctypes.py_object
        new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        self._name = b"BitGenerator"
        self.capsule = new(ctypes.addressof(self._bg), self._name, None)
        self.lock = threading.Lock()
        self.state = {"bit_generator": "Controlled"}

    def _dbl(self, _):
        p = self.pos
        self.pos = p + 1
        if p < len(self.answers):
            return self.answers[p]
        self.over += 1
        # beyond the scripted answers: a fixed equidistributed sequence in (0, 1)
        return ((self.over*0.6180339887498949) % 1.)*0.999 + 0.0005

    def _u64(self, _):
        self.ints += 1
        return int(self._dbl(None)*2.**64) & (2**64 - 1)

    def _u32(self, _):
        self.ints += 1
        return int(self._dbl(None)*2.**32) & (2**32 - 1)

    def script(self, answers):
        self.answers = [float(a) for a in answers]
        self.pos = self.over = self.ints = 0


_ctl = None
_saved = None


def install():
    global _ctl, _saved
    if _ctl is None:
        _ctl = Controlled()
        _saved = np.random.get_bit_generator()
    np.random.set_bit_generator(_ctl)
    return _ctl


def restore():
    if _saved is not None:
        np.random.set_bit_generator(_saved)


def scripted(fn, answers):
    """fn() with the random doubles answered from the sequence; returns (result, used)."""
    c = install()
    try:
        c.script(answers)
        r = fn()
        return r, c.pos
    finally:
        restore()


class Always:
    """As many answers u as are asked for."""

    def __init__(self, u):
        self.u = float(u)

    def __len__(self):
        return 2**60

    def __getitem__(self, i):
        return self.u


def constant(fn, u):
    """fn() with every random double answered by u."""
    c = install()
    try:
        c.script([])
        c.answers = Always(u)
        return fn()
    finally:
        restore()


def mid(K):
    return [(k + 0.5)/K for k in range(K)]


def product_grid(levels, ndraw, layout):
    """Scripts that present every combination of per-draw levels to one call of size
    len(levels)**ndraw.  'block': all first draws, then all second draws ...;
    'point': the draws of one point together."""
    combos = list(itertools.product(levels, repeat=ndraw))
    if layout == "block":
        return [c[d] for d in range(ndraw) for c in combos]
    return [c[d] for c in combos for d in range(ndraw)]


LAYOUTS = ("block", "point")
