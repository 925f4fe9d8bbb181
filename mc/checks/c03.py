"""C03: the grid remaps depend on nothing but their arguments.

Environment answers (what the heap held before, what ran before) are enumerated:
the whole case list is run in processes whose C allocator fills fresh and freed
memory with different byte patterns, with poisoned NumPy and C buffers before
every call, with the stack below the call filled with patterns, and in every order of
call pairs.
"""
import ctypes
import itertools
import os
import shutil
import subprocess
import tempfile

import numpy as np

from mc.core import close
from mc.ref_grid import fractions

SRC = True
MAPS = False
FFLAGS = {"thorough": "-O2 -fcheck=all"}
BOUNDS = {
    "quick": "5 allocator fill patterns x every ordered pair of calls out of 1D, 2D and 3D ones "
             "(inside, partly outside, disjoint, larger and smaller cells; calls that agree in all but one "
             "argument, in one reused array), the buffer poison "
             "rotating over 3 values and the fill of the stack over 4 between the pairs, every poison "
             "for a repeated call; each "
             "result compared with the reference and with its own repetitions",
    "thorough": "9 allocator fill patterns x 5 poisons x every ordered pair of more calls, on a "
                "build with array bounds checking of the Fortran sources",
}
ASSUMPTIONS = ["fresh memory holds one of the enumerated fill patterns"]
AX = [(0., 1., 2, 0., 1., 2), (0., 1., 4, 0., 1., 2), (0., 1., 2, -0.25, 1., 3),
      (0., 1., 2, -0.05, 0.1, 2), (0., 1., 2, 0.95, 0.1, 2), (0., 1., 2, -2., 1., 2),
      (0., 1., 3, -1., 3., 2), (0., 1., 3, 0.4, 0.2, 3), (-1.5, 2.5, 3, -1., 0.7, 2),
      (5., 10., 1, 4., 12., 1), (0., 1., 2, 1., 1., 1), (0., 1., 7, -0.5, 4., 2),
      # a cell wholly within one cell's width left of the grid, after or before covered ones
      (0., 1., 2, -0.4, 1.2, 4), (0., 1., 3, -0.3, 0.5, 4)]
# fills of the stack below the call: bytes, or a double whose halves are the integers 0 and 1
STACK = [None, b"\x00"*8, b"\x01\x00\x00\x00"*2, np.float64(1.).tobytes()]
SCRUB = r'''
#include <string.h>
#include <stddef.h>
__attribute__((noinline)) void scrub(const char *pat) {
    volatile char buf[1 << 17];
    for (size_t i = 0; i < sizeof buf; i++) buf[i] = pat[i & 7];
    __asm__ volatile("" : : "r"(buf) : "memory");
}
'''
# calls that agree in all but one argument with a base call (so that anything kept from one
# call to the next under too few arguments shows), one of them in the values only
TWIN = [(0., 1., 6, 0.1, 0.2, 2), (0., 1., 6, 0.1, 0.9, 2), (0., 4., 6, 0.1, 0.9, 2),
        (0.5, 1., 6, 0.1, 0.9, 2), (0., 1., 6, 0.4, 0.9, 2), (0., 1., 6, 0.1, 0.9, 3),
        (0., 1., 5, 0.1, 0.9, 2), (0., 1., 6, 0.1, 0.9, 2, 1)]
PERTURB = {"quick": [None, 1, 85, 170, 255], "thorough": [None, 1, 16, 64, 85, 127, 170, 191, 255]}


def calls(tier):
    out = [("1", (a,)) for a in AX]
    n = 6 if tier == "quick" else 8
    ax = AX[:n] + AX[-2:-1]
    out += [("2", (a, b)) for a in ax for b in ax[1:]]
    sub = [AX[i] for i in ((3, -2) if tier == "quick" else (2, 3, 5, -2))] + [AX[0]]
    out += [("3", c) for c in itertools.product(sub, repeat=3)]
    b = AX[0]
    out += [("1", (a,)) for a in TWIN]
    out += [("2", c) for a in TWIN for c in ((a, b), (b, a))]
    out += [("3", c) for a in TWIN[:3] for c in ((a, b, b), (b, a, b), (b, b, a))]
    return out


def field(ax):
    shape = tuple(a[2] for a in ax)
    v = sum(a[6] for a in ax if len(a) > 6)
    return ((np.arange(int(np.prod(shape)))*(37 + 16*v) % 101)*0.25 + 1.).reshape(shape)


def shards(tier):
    out = []
    n = len(calls(tier))
    for p in PERTURB[tier]:
        env = {} if p is None else {"MALLOC_PERTURB_": str(p)}
        step = 4 if tier == "quick" else 8
        for k in range(step):
            out.append({"env": env, "perturb": p, "k": k, "step": step, "tier": tier})
    return out


def run(sh, rec, M):
    g = M.remap
    fns = {"1": g.grid2grid1D, "2": g.grid2grid2D, "3": g.grid2grid3D}
    libc = ctypes.CDLL(None)
    libc.malloc.restype = ctypes.c_void_p
    libc.malloc.argtypes = [ctypes.c_size_t]
    libc.free.argtypes = [ctypes.c_void_p]
    cs = calls(sh["tier"])
    tmp = tempfile.mkdtemp(prefix="mc_c03_")
    try:
        with open(os.path.join(tmp, "s.c"), "w") as fh:
            fh.write(SCRUB)
        subprocess.run(["gcc", "-O0", "-shared", "-fPIC", "-o", os.path.join(tmp, "s.so"),
                        os.path.join(tmp, "s.c")], check=True)
        scrub = ctypes.CDLL(os.path.join(tmp, "s.so")).scrub
    finally:
        shutil.rmtree(tmp)
    scrub.argtypes = [ctypes.c_char_p]

    def poison(v):
        if v is None:
            return
        for n in (1, 2, 4, 8, 9, 16, 27, 64):
            a = np.full(n, v)
            del a
            ps = [libc.malloc(8*n) for _ in range(6)]
            for p in ps:
                (ctypes.c_double*n).from_address(p)[:] = [v]*n
            for p in ps:
                libc.free(p)

    bufs = {}

    def buf(ax):
        # one array per shape, overwritten by the caller between the calls
        f = field(ax)
        b = bufs.setdefault(f.shape, f)
        b[...] = f
        return b

    def go(c):
        kind, ax = c
        f = buf(ax)
        if kind == "1":
            a = ax[0]
            return rec.call(fns[kind], f, a[1], a[5], origin=a[0], originout=a[3],
                            boxsizeout=a[4])
        return rec.call(fns[kind], f, [a[1] for a in ax], [a[5] for a in ax],
                        origin=[a[0] for a in ax], originout=[a[3] for a in ax],
                        boxsizeout=[a[4] for a in ax])

    def want(c):
        kind, ax = c
        f = field(ax)
        for d, a in enumerate(ax):
            f = np.moveaxis(np.tensordot(fractions(*a[:6]), f, axes=(1, d)), 0, d)
        return f
    wants = [want(c) for c in cs]
    base = {}
    poisons = [None, 7.5e300, float("nan")]
    if sh["tier"] != "quick":
        poisons += [-3., float("inf")]
    for i in range(sh["k"], len(cs), sh["step"]):
        for j in range(len(cs)):
            v = poisons[(i + j) % len(poisons)] if i != j else None
            for v in ([v] if i != j else poisons):
                key = {"perturb": sh["perturb"], "poison": str(v), "first": cs[j], "then": cs[i]}
                with rec.case(key):
                    go(cs[j])
                    poison(v)
                    if STACK[(i + 2*j) % 4] is not None:
                        scrub(STACK[(i + 2*j) % 4])
                    r = go(cs[i])
                    rec.outcome(r)
                    rec.check(close(r, wants[i]), key, "result depends on its surroundings",
                              got=r, want=wants[i])
                    b = base.setdefault(i, np.array(r))
                    rec.check(np.array_equal(b, r), key, "repeated call gives other bits")
