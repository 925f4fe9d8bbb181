"""C02: grid2grid argument forms, memory layouts, defaults; identity, conservation, symmetry."""
import itertools

import numpy as np

from mc.core import close
from mc.ref_grid import fractions

SRC = True
MAPS = False
BOUNDS = {
    "quick": "1D/2D/3D; every combination of argument forms (scalar, list, tuple, array, omitted) "
             "of box size, resolution, origin, output origin, output box; 8 memory layouts x 5 "
             "dtypes of the field; identity, nesting, conservation and axis permutation on all "
             "grids up to 4 cells per axis",
    "thorough": "as quick, with grids up to 6 cells per axis and 4 value sets",
}
ASSUMPTIONS = ["positive box sizes", "comparison tolerance 1e-9"]


def shards(tier):
    n = 4 if tier == "quick" else 6
    out = []
    for dim in (1, 2, 3):
        for vs in range(2 if tier == "quick" else 4):
            out.append({"kind": "forms", "dim": dim, "vs": vs})
        out.append({"kind": "layout", "dim": dim})
        out.append({"kind": "laws", "dim": dim, "n": n if dim < 3 else n - 1})
    return out


def forms(vals, scalar_ok, dim):
    """All ways to write one per-axis argument."""
    if dim == 1:
        v = vals[0]
        out = [("float", v), ("np", np.float64(v))]
        if v == int(v):
            out += [("int", int(v)), ("npint", np.int64(v))]
        return out
    out = [("list", list(vals)), ("tuple", tuple(vals)), ("array", np.array(vals))]
    if scalar_ok and len(set(vals)) == 1:
        out += [("scalar", vals[0]), ("npscalar", np.asarray(vals)[0])]
        if vals[0] == int(vals[0]):
            out.append(("intscalar", int(vals[0])))
    return out


def dense(shape):
    n = int(np.prod(shape))
    return ((np.arange(n)*37 % 101)*1. - 7.).reshape(shape)


def apply(f, axes_):
    for d, a in enumerate(axes_):
        f = np.moveaxis(np.tensordot(fractions(*a), f, axes=(1, d)), 0, d)
    return f


VALS = [
    # origin, box, n1, origin out, box out, n2 per axis
    {"o": (0., 0., 0.), "b": (2., 2., 2.), "n1": (2, 3, 2), "oo": (0., 0., 0.),
     "bo": (2., 2., 2.), "n2": (3, 3, 3)},
    {"o": (-1., -1., -1.), "b": (2., 3., 5.), "n1": (3, 2, 4), "oo": (-2., -0.5, 1.),
     "bo": (4., 4., 4.), "n2": (2, 3, 4)},
    {"o": (-1., 0.5, 2.), "b": (2., 2., 2.), "n1": (2, 2, 2), "oo": (1., 1., 1.),
     "bo": (1., 2., 0.5), "n2": (1, 1, 1)},
    {"o": (7., 7., 7.), "b": (1., 1., 1.), "n1": (1, 4, 3), "oo": (6.5, 7., 7.75),
     "bo": (1., 1., 1.), "n2": (5, 2, 3)},
]


def run(sh, rec, M):
    dim = sh["dim"]
    fn = [M.remap.grid2grid1D, M.remap.grid2grid2D, M.remap.grid2grid3D][dim - 1]
    if sh["kind"] == "forms":
        v = {k: x[:dim] for k, x in VALS[sh["vs"]].items()}
        f = dense(v["n1"])
        opts = {"o": forms(v["o"], True, dim), "b": forms(v["b"], True, dim),
                "n2": forms(v["n2"], True, dim), "oo": forms(v["oo"], True, dim),
                "bo": forms(v["bo"], True, dim)}
        if dim == 1:
            opts["n2"] = [("int", v["n2"][0]), ("npint", np.int64(v["n2"][0]))]
        if all(x == 0. for x in v["o"]):
            opts["o"].append(("omitted", None))
        if all(x == 0. for x in v["oo"]):
            opts["oo"].append(("omitted", None))
        if v["bo"] == v["b"]:
            opts["bo"] += [("omitted", None), ("none", None)]
        want = apply(f, [(v["o"][d], v["b"][d], v["n1"][d], v["oo"][d], v["bo"][d], v["n2"][d])
                         for d in range(dim)])
        names = ["o", "b", "n2", "oo", "bo"]
        for combo in itertools.product(*[opts[k] for k in names]):
            c = dict(zip(names, combo))
            key = {"dim": dim, "vs": sh["vs"], "forms": {k: x[0] for k, x in c.items()}}
            kw = {}
            for k, arg in (("o", "origin"), ("oo", "originout"), ("bo", "boxsizeout")):
                if c[k][0] != "omitted":
                    kw[arg] = c[k][1]
            with rec.case(key):
                r = rec.call(fn, f, c["b"][1], c["n2"][1], **kw)
                rec.outcome(r)
                rec.check(close(r, want), key, "argument form changes the result", got=r, want=want)
                if len(kw) == 3:
                    r = rec.call(fn, f, c["b"][1], c["n2"][1], kw["origin"], kw["originout"],
                                 kw["boxsizeout"])
                    rec.check(close(r, want), key, "positional form changes the result")
    elif sh["kind"] == "layout":
        shape = (3, 4, 5)[:dim]
        ax = [(0., 1., shape[d], -0.2 + 0.1*d, 1.3, 2 + d) for d in range(dim)]
        base = dense(shape)
        want = apply(base, ax)
        big = np.zeros(tuple(2*s for s in shape))
        for dt in ("float64", "float32", "int64", "int32", ">f8"):
            b = base.astype(dt)
            lay = {"C": np.ascontiguousarray(b), "F": np.asfortranarray(b)}
            s = np.zeros(tuple(2*n for n in shape), dtype=dt)
            s[tuple(slice(None, None, 2) for _ in shape)] = b
            lay["strided"] = s[tuple(slice(None, None, 2) for _ in shape)]
            lay["reversed"] = b[tuple(slice(None, None, -1) for _ in shape)].copy()[
                tuple(slice(None, None, -1) for _ in shape)]
            lay["transposed"] = np.ascontiguousarray(b.T).T
            p = np.zeros(tuple(n + 2 for n in shape), dtype=dt)
            p[tuple(slice(1, -1) for _ in shape)] = b
            lay["window"] = p[tuple(slice(1, -1) for _ in shape)]
            ro = b.copy()
            ro.setflags(write=False)
            lay["readonly"] = ro
            lay["repeat"] = b.copy()
            for name, a in lay.items():
                key = {"dim": dim, "dtype": dt, "layout": name}
                with rec.case(key):
                    args = ([1.]*dim, [2 + d for d in range(dim)])
                    kw = dict(origin=[0.]*dim, originout=[-0.2 + 0.1*d for d in range(dim)],
                              boxsizeout=[1.3]*dim)
                    if dim == 1:
                        args = (1., 2)
                        kw = dict(origin=0., originout=-0.2, boxsizeout=1.3)
                    before = np.array(a, copy=True)
                    r = rec.call(fn, a, *args, **kw)
                    rec.outcome(r)
                    rec.check(close(r, want), key, "layout changes the result", got=r, want=want)
                    rec.check(np.array_equal(before, a), key, "input field changed")
    else:
        n = sh["n"]
        rng = range(1, n + 1)
        for shape in itertools.product(rng, repeat=dim):
            f = dense(shape)
            for o, b in ((0., 1.), (-3., 2.5)):
                B = b if dim == 1 else [b + 0.5*d for d in range(dim)]
                O = o if dim == 1 else [o + d for d in range(dim)]
                key = {"dim": dim, "shape": shape, "o": o, "b": b}
                with rec.case(key):
                    nn = shape[0] if dim == 1 else list(shape)
                    r = rec.call(fn, f, B, nn, origin=O, originout=O)
                    rec.check(close(r, f), key, "remapping onto the same grid is not the identity")
                    # every finer grid and back is the identity
                    for k in (2, 3):
                        nk = k*shape[0] if dim == 1 else [k*s for s in shape]
                        fine = rec.call(fn, f, B, nk, origin=O, originout=O, boxsizeout=B)
                        want = f
                        for d in range(dim):
                            want = np.repeat(want, k, axis=d)
                        rec.check(close(fine, want), key, "refining by %d" % k)
                        back = rec.call(fn, fine, B, nn, origin=O, originout=O, boxsizeout=B)
                        rec.check(close(back, f), key, "refining by %d and back" % k)
                    # output containing the input conserves the integral
                    lo = (o - 0.37) if dim == 1 else [x - 0.37 for x in O]
                    bb = (b + 1.1) if dim == 1 else [x + 1.1 for x in B]
                    vol = np.prod(np.atleast_1d(B))/f.size
                    for m in (1, 2, 5):
                        mm = m if dim == 1 else [m + d for d in range(dim)]
                        r = rec.call(fn, f, B, mm, origin=O, originout=lo, boxsizeout=bb)
                        rec.outcome(r)
                        vo = np.prod(np.atleast_1d(bb))/r.size
                        rec.check(abs(np.sum(r)*vo - np.sum(f)*vol) < 1e-8*(1 + abs(np.sum(f))),
                                  key, "integral not conserved with %d output cells" % m)
                        # a constant stays constant where output lies inside
                        c = rec.call(fn, np.full(shape, 4.5), bb, mm, origin=lo, originout=O,
                                     boxsizeout=B)
                        rec.check(close(c, np.full(np.shape(c), 4.5)), key, "constant field")
                    if dim > 1:
                        for perm in itertools.permutations(range(dim)):
                            mm = [2 + d for d in range(dim)]
                            r = rec.call(fn, f, B, mm, origin=O, originout=lo, boxsizeout=bb)
                            P = lambda x: [x[p] for p in perm]
                            r2 = rec.call(fn, np.transpose(f, perm), P(B), P(mm), origin=P(O),
                                          originout=P(lo), boxsizeout=P(bb))
                            rec.check(close(r2, np.transpose(r, perm)), key,
                                      "axis permutation %s" % (perm,))
