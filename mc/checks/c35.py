"""C35: every remap treats each source cell on its own, in proportion, whatever its storage."""
import itertools

import numpy as np

from mc import rebin_space as sp
from mc.core import close

SRC = True
MAPS = True
PI = np.pi
BOUNDS = {
    "quick": "grid-to-grid in 1D (1..6 to 1..6 cells x 6 placements), 2D and 3D (1..3 cells per axis x 5 "
             "placements per axis), 1D rebinning (1..4 old bins of 2 shapes x every pair of "
             "positions, with weights and errors), nine map remappers (4 set-ups each, for orthographic grids 4 more with cells partly off the sphere), radial "
             "and cumulative profiles, polar rotation by whole and part cells; in each every cell in "
             "turn NaN, +inf, -inf in field, weights and errors; 4 scales; 9 number types and 5 layouts; all arrays at once in small integer types whose products do not fit",
    "thorough": "up to 9 cells in 1D, 4 per axis in 2D, 6 old bins, finer maps",
}
ASSUMPTIONS = ["a target cell depends on a source cell if that cell's basis field changes it",
               "a cell that counts for less than a millionth of a target cell may be lost when it is not finite; in the dense "
               "cube to shell remap such cells may be left out of the mean (healpy does) but not count as zero",
               "Monte Carlo weights are drawn once from a fixed seed"]
KINDS = ["g1", "g2", "g3", "rebin", "dB2R", "mB2R", "dC2S", "mC2S", "dH2R", "mH2R", "dH2P", "mH2P",
         "dH2O", "radial", "cumul", "rot"]


def shards(tier):
    t = tier == "thorough"
    out = []
    for k in KINDS:
        n = {"g1": 9 if t else 6, "g2": 4 if t else 3, "g3": 3 if t else 2,
             "rebin": 6 if t else 4}.get(k)
        out += [{"kind": k, "n": i, "t": t} for i in range(1, n + 1)] if n else \
            [{"kind": k, "t": t, "c": i} for i in range(8 if k == "dH2O" else 4)]
    return out


PLACE = [(0., 1.), (0.25, 0.5), (-0.5, 2.), (1./3., 1./3.), (0.1, 0.7), (0.5, 3.)]


def cases(sh, M):
    """(key, function of keyword arrays -> list of results, shapes of the arrays, have weights, errors)"""
    k, t = sh["kind"], sh["t"]
    n, c = sh.get("n"), sh.get("c")
    if k[0] == "g" and k[1:].isdigit():
        d = int(k[1])
        fn = getattr(M.remap, "grid2grid%dD" % d)
        top = {1: 9 if t else 6, 2: 4 if t else 3, 3: 3 if t else 2}[d]
        place = PLACE[:{1: 6, 2: 5, 3: 3}[d]]
        for ns in itertools.product([n], *[range(1, top + 1)]*(d - 1)):
            for out in itertools.product(range(1, top + 1), repeat=d):
                for pl in itertools.product(place, repeat=d) if d < 3 else zip(place, place[1:] + place[:1], place[2:] + place[:2]):
                    if d == 1:
                        a = (1., out[0])
                        kw = {"originout": pl[0][0], "boxsizeout": pl[0][1]}
                    else:
                        a = ([1.]*d, list(out))
                        kw = {"originout": [p[0] for p in pl], "boxsizeout": [p[1] for p in pl]}
                    yield ({"kind": k, "cells": ns, "out": out, "place": pl},
                           lambda f, a=a, kw=kw: [fn(f, *a, **kw)], ns, False, False)
    elif k == "rebin":
        for steps in ((1.,)*n, (0.5, 3., 1., 0.5, 1., 3.)[:n]):
            e = sp.old_edges(steps, 0)
            p = sp.positions(e, (1./3.,))
            for lo, hi in itertools.combinations(p, 2):
                new = np.array([lo, hi])

                def fn(f, w=None, sigma=None, e=e, new=new):
                    r = M.one_d.rebin_1d(e, f, new, w=w, sigma=sigma)
                    return list(r) if sigma is not None else [r]
                yield {"kind": k, "old": e, "new": [lo, hi]}, fn, (n,), True, True
    elif k in ("radial", "cumul"):
        nr, npn = [(3, 2), (1, 4), (4, 1), (2, 5)][c]
        re = np.array([0., 0.5, 1.7, 2., 4.])[:nr + 1]
        if k == "cumul":
            def fn(f, sigma=None):
                r = M.polar.cumulative_radial(re, f, sigma=sigma)
                return list(r) if sigma is not None else [r]
            yield {"kind": k, "bins": nr}, fn, (nr,), False, True
        else:
            area = M.polar.get_polar_area2d(re, np.linspace(0., 2*PI, npn + 1))

            def fn(f, w=None, sigma=None):
                r = M.polar.polar2radial(f, area, 0.1, sigma=sigma, w=w)
                return list(r) if sigma is not None else [r]
            yield {"kind": k, "cells": [npn, nr]}, fn, (npn, nr), True, True
    elif k == "rot":
        npn, nr = [(4, 2), (1, 3), (6, 1), (5, 2)][c]
        for hi in (2*PI, 4.):
            pe = np.linspace(0., hi, npn + 1)
            for q in list(range(1, npn)) + [0.3, 0.5, npn - 0.4, npn - 0.01]:
                s = q*pe[1]
                if 0. < s < hi:
                    yield ({"kind": k, "cells": [npn, nr], "range": hi, "shift": q},
                           lambda f, pe=pe, s=s: [M.coords.rotate_polar_grid(pe, f, s)],
                           (npn, nr), False, False)
    else:
        yield mapper(k, c, M, t)


def mapper(k, c, M, t):
    mod = M.densegrid if k[0] == "d" else M.montecarlo
    cls = {"B2R": "Box2Ring", "C2S": "Cube2Shell", "H2R": "Heal2Ring", "H2P": "Heal2Polar",
           "H2O": "Heal2Ortho"}[k[1:]]
    o = getattr(mod, cls)()
    if k[1:] == "B2R":
        b = [(-1., 1., 3, -1., 1., 3), (-2., 1., 4, -0.5, 1.7, 2), (0., 2., 5, 0., 2., 4),
             (-1., 1., 6, -1., 1., 6)][c]
        p = [(0., 1., 2, 4), (0.3, 2.5, 3, 2), (0., 1.5, 2, 3), (0., 0.9, 3, 6)][c]
        shape = (b[5], b[2])
        o.setup_box(*b)
        (o.setup_polar if k[0] == "d" else o.setup_polar_lin)(*p, center=[0.1, 0.2])
    elif k[1:] == "C2S":
        b = [(-1., 1., 2, -1., 1., 2, -1., 1., 2), (-1., 2., 3, -0.5, 1.5, 2, -2., 1., 4),
             (0., 1., 1, 0., 1., 2, 0., 1., 3), (5., 7., 2, -4., -1., 3, 0., 0.5, 1)][c]
        shape = (b[5], b[2], b[8])
        o.setup_cube(*b)
        a = [(0., 1., 1, 1), (0.3, 2., 2, 1), (0.2, 0.9, 1, 2), (0.1, 1., 2, 1)][c]
        cen = [0.5*(b[0] + b[1]) + 0.07, 0.5*(b[3] + b[4]) - 0.11, 0.5*(b[6] + b[7])]
        if k[0] == "d":
            o.setup_polar(*a, center=cen)
        else:
            o.setup_polar_lin(*a, center=cen)
    else:
        # from the fifth on: orthographic grids of which cells lie partly off the sphere
        ns = [1, 2, 1, 4 if t else 2, 2, 4, 8 if t else 4, 1][c]
        shape = (12*ns*ns,)
        o.setup_map(ns)
        if k[1:] == "H2R":
            o.setup_polar_cap(*[(0., 0.6, 2, 3), (0.5, 1.4, 1, 4), (0., 3., 3, 2), (0., 1., 2, 5)][c],
                              center=[[0., 0.], [1., 0.7], [4., 2.], [2., 3.]][c])
        else:
            o.setup_box(*[(1.5, 3), (0.6, 2), (1.9, 4), (3., 3), (2., 3), (2.4, 6), (2.2, 5), (2., 2)][c],
                        center=[[0., PI/2], [1., 0.7], [4., 2.], [2., 3.]][c % 4],
                        **({} if c < 5 else {"rebin_x": c - 3, "rebin_y": 9 - c}))
    if k[0] == "m":
        state = np.random.get_state()
        np.random.seed(5)
        o.get_weights(mc_size=40, verbose=False)
        np.random.set_state(state)
    hasw = k != "dC2S"

    def fn(f, w=None):
        return [o.remap(f, verbose=False, **({} if w is None else {"w": w}))]
    return {"kind": k, "config": c}, fn, shape, hasw, False


def arrays(shape):
    n = int(np.prod(shape))
    f = ((np.arange(n)*7) % 23 - 9. + 0.*np.arange(n)).reshape(shape)
    f[f == 0.] = 31.
    w = (1. + (np.arange(n)*5) % 3).reshape(shape)
    s = (1. + (np.arange(n)*3) % 7).reshape(shape)
    return f, w, s


def layouts(a):
    d = a.ndim
    yield "fortran", np.asfortranarray(a)
    big = np.full(tuple(2*n for n in a.shape), 77, dtype=a.dtype)
    sl = (slice(None, None, 2),)*d
    big[sl] = a
    yield "strided", big[sl]
    rv = (slice(None, None, -1),)*d
    yield "reversed", a[rv].copy()[rv]
    ro = a.copy()
    ro.setflags(write=False)
    yield "readonly", ro
    p = np.full(tuple(n + 2 for n in a.shape), 77, dtype=a.dtype)
    p[(slice(1, -1),)*d] = a
    yield "window", p[(slice(1, -1),)*d]


TYPES = ["float32", "int64", "int32", "int16", "uint8", ">f8", ">i4", "longdouble"]


def run(sh, rec, M):
    with np.errstate(all="ignore"):
        for key, fn, shape, hasw, hass in cases(sh, M):
            with rec.case(key):
                one(rec, key, fn, shape, hasw, hass)


def unseen(r):
    return ~np.isfinite(r) | (np.asarray(r) < -1e30)


def one(rec, key, fn, shape, hasw, hass):
    f, w, s = arrays(shape)
    combos = [{}]
    if hasw:
        combos.append({"w": w})
    if hass:
        combos += [dict(x, sigma=s) for x in list(combos)]

    def go(**kw):
        r = [np.array(x, dtype=float) for x in rec.call(fn, **kw)]
        rec.outcome(*r)
        return r
    base = []
    for c in combos:
        base.append(go(f=f.copy(), **{a: b.copy() for a, b in c.items()}))
    cells = list(np.ndindex(*shape))
    touch = []
    for i in cells:
        e = np.zeros(shape)
        e[i] = 1.
        touch.append(go(f=e)[0])
    # a dense field is the sum of its cells
    total = sum(x*f[i] for x, i in zip(touch, cells))
    use = ~unseen(base[0][0])
    rec.check(np.array_equal(unseen(total), ~use) and close(base[0][0][use], total[use]), key,
              "a field is not remapped as the sum of its cells", got=base[0][0], want=total)
    # cells that are not finite reach only what they cover
    asked = told = 0
    for x, i in zip(touch, cells):
        free = (x == 0.) | ~use
        hit = use & (np.abs(x) > 1e-6)
        for c, ref in zip(combos, base):
            for name in ["f"] + list(c):
                for v in (np.nan, np.inf, -np.inf):
                    if name != "f" and v < 0:
                        continue
                    a = {"f": f.copy(), **{q: b.copy() for q, b in c.items()}}
                    a[name][i] = v
                    r = go(**a)
                    # data do not enter the errors and errors do not enter the data
                    for j, (got, want) in enumerate(zip(r, ref)):
                        ok = free
                        if name == ("sigma" if j == 0 else "f"):
                            ok = np.ones(np.shape(want), bool)
                        rec.check(np.shape(got) == np.shape(want) and close(got[ok], want[ok], 1e-9),
                                  key, "a cell that is not finite reaches beyond the cells it covers",
                                  cell=i, array=name, value=v, result=j, got=got, want=want)
                        if key["kind"] == "dC2S":
                            # healpy leaves pixels without a value out of the mean
                            a[name][i] = 0.
                            zero = go(**a)[j]
                            asked += int(np.sum(hit & (np.abs(zero) > 1e-6)))
                            told += int(np.sum(hit & (np.abs(zero) > 1e-6) & ~(np.abs(got - zero) < 1e-9)))
                        elif name != ("sigma" if j == 0 else "f"):
                            rec.check(np.shape(got) == np.shape(want) and
                                      not np.any(np.isfinite(got[hit]) & (got[hit] > -1e30)), key,
                                      "a cell that is not finite leaves no trace where it counts",
                                      cell=i, array=name, value=v, result=j, got=got, want=want)
    rec.check(told == asked, key, "a cell that is not finite counts as zero", asked=asked, told=told)
    # proportion
    for c, ref in zip(combos, base):
        for name in ["f"] + list(c):
            for q in (1e-120, 1e120, 3.) + ((-1.,) if name == "f" else ()):
                a = {"f": f.copy(), **{z: b.copy() for z, b in c.items()}}
                a[name] = a[name]*q
                r = go(**a)
                for j, (got, want) in enumerate(zip(r, ref)):
                    grows = name == ("f" if j == 0 else "sigma")
                    ok = ~unseen(want)
                    m = 1e-9*np.max(np.abs(want[ok]), initial=np.max(np.abs(f)))
                    x = got/q if grows else got
                    fine = np.shape(got) == np.shape(want) and \
                        bool(np.all(np.abs(x[ok] - want[ok]) <= m)) and \
                        close(got[~ok], want[~ok])
                    rec.check(fine, key, "scaling the %s by %g" % (name, q), result=j, got=got,
                              want=want)
    # storage
    for c, ref in zip(combos, base):
        full = {"f": f, **c}
        for name in full:
            forms = []
            for dt in TYPES + ["bool"]:
                src = np.abs(full[name]) if dt == "uint8" else full[name]
                if dt == "bool":
                    src = (np.abs(full[name]) % 3 > 0)
                b = src.astype(dt)
                forms.append((dt, src.astype(float), b))
            forms += [(ln, full[name], b) for ln, b in layouts(full[name])]
            for label, plain, b in forms:
                same = np.array_equal(plain, full[name])
                want = ref if same else go(**{**{q: v.copy() for q, v in full.items()}, name: plain})
                got = go(**{**{q: v.copy() for q, v in full.items()}, name: b})
                rec.check(len(got) == len(want) and all(close(x, y, 1e-6 if label == "float32" else 1e-12) for x, y in zip(got, want)),
                          key, "the %s stored as %s" % (name, label), got=got, want=want)
    # all arrays small integers, with products that do not fit
    for dt, a, b in (("uint8", 8, 80), ("int8", 4, 40), ("int16", 1000, 10000), ("int32", 6*10**7, 6*10**8),
                     ("uint16", 2000, 20000), ("int64", 10**8, 10**8)):
        for c in combos:
            full = {"f": f*a, **{q: v*(a if q == "sigma" else b) for q, v in c.items()}}
            if dt[0] == "u":
                full["f"] = np.abs(full["f"])
            full = {q: np.minimum(v, np.iinfo(dt).max) for q, v in full.items()}
            want = go(**full)
            got = go(**{q: v.astype(dt) for q, v in full.items()})
            rec.check(len(got) == len(want) and all(close(x, y, 1e-9) for x, y in zip(got, want)), key,
                      "all arrays stored as " + dt, with_=sorted(full), got=got, want=want)
