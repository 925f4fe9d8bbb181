"""C01: grid2grid remaps are exact overlap averages (1D, 2D, 3D)."""
import itertools

import numpy as np

from mc.core import close, maxdiff
from mc.ref_grid import fractions

SRC = True
MAPS = False
BOUNDS = {
    "quick": "1D: 3 origins x 4 box sizes x n1 1..6 x n2 1..6 x 13 output origins x 6 output "
             "box sizes, every basis vector; 1D large grids up to 200 cells; 2D: all ordered "
             "pairs of 16 axis configurations, 3D: all ordered triples of 12, every basis "
             "vector of every input grid plus one dense field",
    "thorough": "1D: 5 origins x 6 box sizes x n1 1..9 x n2 1..9 x 25 output origins x 10 "
                "output box sizes; 2D: all pairs of 40 axis configurations; 3D: all triples of 24",
}
ASSUMPTIONS = ["positive box sizes, at least one cell per axis, finite field values",
               "comparison tolerance 1e-9 relative to 1+|value|"]

# one axis: (origin, box, n1, origin_out, box_out, n2)
AXES = [
    (0., 1., 2, 0., 1., 2),        # identity
    (0., 1., 2, 0., 1., 4),        # refine
    (0., 1., 4, 0., 1., 2),        # coarsen
    (0., 1., 3, 0., 1., 2),        # incommensurate
    (0., 1., 2, -0.25, 1., 2),     # shifted left, partly outside
    (0., 1., 2, 0.3, 1., 3),       # shifted right, partly outside
    (0., 1., 2, -2., 1., 2),       # disjoint left
    (0., 1., 2, 3., 1., 2),        # disjoint right
    (0., 1., 2, -1., 3., 2),       # containing
    (0., 1., 3, 0.4, 0.2, 3),      # contained
    (-1.5, 2.5, 3, -1., 0.7, 2),   # negative origins
    (5., 10., 1, 4., 12., 1),      # single cells
    (0., 1., 2, -0.5, 1., 2),      # aligned, one cell outside
    (0., 1., 2, -0.05, 0.1, 2),    # fine cells just left of the grid
    (0., 1., 2, 0.95, 0.1, 2),     # fine cells just right of the grid
    (2., 3., 3, 0., 7., 3),
]
MORE = [(o, b, n1, o2, b2, n2)
        for (o, b) in ((0., 1.), (-2.3, 3.1))
        for (n1, n2) in ((1, 3), (3, 1), (2, 3))
        for (o2, b2) in ((-2.9, 1.), (0.1, 0.55), (-3., 6.), (0.61, 2.))]


def axes(tier, dim):
    if tier == "quick":
        return AXES if dim == 2 else AXES[:12]
    return AXES + MORE if dim == 2 else AXES + MORE[:8]


def shards(tier):
    out = []
    if tier == "quick":
        os_, bs, nmax = (0., -1.7, 2.5), (1., 2., 0.7, 3.3), 6
        o2 = (-4., -2., -1.25, -0.5, -0.1, 0., 0.1, 1./3., 0.5, 0.9, 1., 2.25, 6.)
        b2 = (0.05, 0.5, 1., 1.3, 2., 7.)
    else:
        os_, bs, nmax = (0., -1.7, 2.5, 100., -0.3), (1., 2., 0.7, 3.3, 0.01, 50.), 9
        o2 = tuple(np.round(np.linspace(-4., 6., 21), 3)) + (-0.1, 0.1, 1./3., 99.)
        b2 = (0.003, 0.05, 0.5, 1., 1.3, 2., 7., 0.7, 3.3, 60.)
    for o in os_:
        for b in bs:
            out.append({"kind": "1d", "o": o, "b": b, "nmax": nmax, "o2": list(map(float, o2)),
                        "b2": list(b2)})
    out.append({"kind": "1dlarge", "tier": tier})
    for i in range(len(axes(tier, 2))):
        out.append({"kind": "2d", "first": i, "tier": tier})
    for i in range(len(axes(tier, 3))):
        out.append({"kind": "3d", "first": i, "tier": tier})
    return out


def dense(shape):
    n = int(np.prod(shape))
    return ((np.arange(n)*37 % 101)*0.25 - 7.).reshape(shape)


def run1d(rec, g, key, o, b, n1, oo, bo, n2):
    A = fractions(o, b, n1, oo, bo, n2)
    with rec.case(key):
        for i in range(n1):
            f = np.zeros(n1)
            f[i] = 1.
            r = rec.call(g.grid2grid1D, f, b, n2, origin=o, originout=oo, boxsizeout=bo)
            rec.outcome(r)
            rec.check(close(r, A[:, i]), key, "basis vector %d" % i, got=r, want=A[:, i])
        f = dense((n1,))
        r = rec.call(g.grid2grid1D, f, b, n2, origin=o, originout=oo, boxsizeout=bo)
        rec.check(close(r, A @ f), key, "dense field", got=r, want=A @ f)


def run(sh, rec, M):
    g = M.remap
    if sh["kind"] == "1d":
        for n1 in range(1, sh["nmax"] + 1):
            for n2 in range(1, sh["nmax"] + 1):
                for oo in sh["o2"]:
                    for bo in sh["b2"]:
                        a = (sh["o"], sh["b"], n1, oo, bo, n2)
                        run1d(rec, g, {"d": 1, "axis": a}, *a)
    elif sh["kind"] == "1dlarge":
        for n1, n2 in itertools.product((1, 7, 50, 128, 200), (1, 3, 64, 101, 200)):
            for a in ((0., 1., n1, 0., 1., n2), (-3., 10., n1, -4.7, 12., n2),
                      (0., 1., n1, 0.303, 0.1, n2), (0., 1000., n1, -10., 300., n2)):
                key = {"d": 1, "axis": a}
                A = fractions(*a)
                with rec.case(key):
                    for i in sorted({0, n1//2, n1 - 1}) + [-1]:
                        f = dense((n1,)) if i < 0 else np.eye(n1)[i]
                        r = rec.call(g.grid2grid1D, f, a[1], n2, origin=a[0], originout=a[3],
                                     boxsizeout=a[4])
                        rec.outcome(r)
                        rec.check(close(r, A @ f, 1e-8), key, "field %d" % i)
    else:
        dim = int(sh["kind"][0])
        ax = axes(sh["tier"], dim)
        fn = g.grid2grid2D if dim == 2 else g.grid2grid3D
        rest = itertools.product(ax, repeat=dim - 1)
        for combo in rest:
            cfg = (ax[sh["first"]],) + combo
            key = {"d": dim, "axes": cfg}
            As = [fractions(*a) for a in cfg]
            shape = tuple(a[2] for a in cfg)
            kw = dict(origin=[a[0] for a in cfg], originout=[a[3] for a in cfg],
                      boxsizeout=[a[4] for a in cfg])
            box, nout = [a[1] for a in cfg], [a[5] for a in cfg]
            with rec.case(key):
                for idx in itertools.product(*[range(n) for n in shape]):
                    f = np.zeros(shape)
                    f[idx] = 1.
                    want = As[0][:, idx[0]]
                    for d in range(1, dim):
                        want = np.multiply.outer(want, As[d][:, idx[d]])
                    r = rec.call(fn, f, box, nout, **kw)
                    rec.outcome(r)
                    rec.check(close(r, want), key, "basis vector %s" % (idx,),
                              maxdiff=maxdiff(r, want) if np.shape(r) == want.shape else None)
                f = dense(shape)
                want = f
                for d in range(dim):
                    want = np.moveaxis(np.tensordot(As[d], want, axes=(1, d)), 0, d)
                r = rec.call(fn, f, box, nout, **kw)
                rec.check(close(r, want), key, "dense field")
