"""C14: uniform random points in boxes, discs, balls and on the sphere.

The random source is controlled: every combination of K equally likely answers
per draw is presented, and the image of that product must be one point per
equal-measure cell, exactly at the cell centres of the inverse measure map.
"""
import itertools

import numpy as np

from mc import rng

SRC = False
MAPS = False
BOUNDS = {
    "quick": "7 generators x all listed ranges x all K^d answer combinations (K=9 per draw for "
             "1D, 2D; 6 for 3D) plus all combinations of the extreme answers 0 and 1-2^-53, "
             "sizes 0, 1, 2, 3, 7 as well; 9 ranges given as 5 other number types",
    "thorough": "as quick with K=64 (1D, 2D) and 20 (3D) and more ranges",
}
ASSUMPTIONS = ["draws are made through NumPy's global generator as independent uniform doubles",
               "ranges with minimum < maximum, radii >= 0, theta within [0, pi]"]
PI = float(np.pi)

R1 = [None, (0., 1.), (-3., 2.), (5., 5.5), (-2.5, -1.), (1e3, 1e4)]
RR = [None, (0., 1.), (0.5, 2.), (0., 7.), (3., 3.25), (10., 1000.)]
RP = [None, (0., 2*PI), (0.3, 1.), (-PI, PI), (5., 2*PI), (PI/2, 3*PI/2)]
RT = [None, (0., PI), (0., PI/2), (PI/2, PI), (0.4, 2.2), (3., PI)]


def shards(tier):
    out = [{"fn": "1d", "a": a} for a in R1]
    for a in R1:
        for b in R1:
            if (a is None) == (b is None):
                out.append({"fn": "2d", "a": a, "b": b})
    for t in itertools.product(R1[1:4], repeat=3):
        out.append({"fn": "3d", "a": t[0], "b": t[1], "c": t[2]})
    out.append({"fn": "3d", "a": None, "b": None, "c": None})
    out += [{"fn": "polar", "a": a, "b": b} for a in RR for b in RP]
    out += [{"fn": "usphere", "a": a, "b": b} for a in RP for b in RT]
    out += [{"fn": "sphere_r", "a": a} for a in RR]
    n = 4 if tier == "quick" else 6
    out += [{"fn": "sphere", "a": a, "b": b, "c": c} for a in RR[:n] for b in RP[:n]
            for c in RT[:n]]
    # the same ranges given as other number types (single precision: values it holds exactly)
    for fn, g in (("1d", [(-3, 20)]), ("2d", [(-3, 20), (5, 6)]), ("3d", [(-3, 20), (5, 6), (0, 100)]),
                  ("polar", [(1, 20), (0, 6)]), ("polar", [(11, 13), (2, 3)]), ("sphere_r", [(0, 120)]),
                  ("sphere_r", [(6, 7)]), ("sphere", [(2, 30), (1, 4), None]), ("usphere", [(1, 4), None])):
        out += [dict({"fn": fn, "as": w}, **dict(zip("abc", g)))
                for w in ("int", "int8", "int16", "int64", "float32")]
    for s in out:
        s["tier"] = tier
    return out


DEF = {"1d": [(0., 1.)], "2d": [(0., 1.)]*2, "3d": [(0., 1.)]*3, "polar": [(0., 1.), (0., 2*PI)],
       "usphere": [(0., 2*PI), (0., PI)], "sphere_r": [(0., 1.)],
       "sphere": [(0., 1.), (0., 2*PI), (0., PI)]}
NAMES = {"polar": ["r", "phi"], "usphere": ["phi", "theta"], "sphere_r": ["r"],
         "sphere": ["r", "phi", "theta"]}


def measure(kind, v, lo, hi):
    """Position of v in its range by measure, in [0, 1]."""
    if kind == "r2":
        return (v**2 - lo**2)/(hi**2 - lo**2)
    if kind == "r3":
        return (v**3 - lo**3)/(hi**3 - lo**3)
    if kind == "theta":
        return (np.cos(lo) - np.cos(v))/(np.cos(lo) - np.cos(hi))
    return (v - lo)/(hi - lo)


KIND = {"1d": ["x"], "2d": ["x", "x"], "3d": ["x", "x", "x"], "polar": ["r2", "x"],
        "usphere": ["x", "theta"], "sphere_r": ["r3"], "sphere": ["r3", "x", "theta"]}


def run(sh, rec, M):
    fn = sh["fn"]
    R = M.randoms
    given = [sh.get(k) for k in "abc"][:len(KIND[fn])]
    ranges = [g if g is not None else d for g, d in zip(given, DEF[fn])]
    kw = {}
    if fn in ("1d",):
        if given[0] is not None:
            kw = {"xmin": given[0][0], "xmax": given[0][1]}
    elif fn in ("2d", "3d"):
        if given[0] is not None:
            kw = {"mins": [g[0] for g in given], "maxs": [g[1] for g in given]}
    else:
        for n, g in zip(NAMES[fn], given):
            if g is not None:
                kw[n + "_min"], kw[n + "_max"] = g
    if "as" in sh:
        tp = int if sh["as"] == "int" else np.dtype(sh["as"]).type
        kw = {k: [tp(x) for x in v] if isinstance(v, list) else tp(v) for k, v in kw.items()}
    f = getattr(R, "randoms_" + fn)
    nd = len(KIND[fn])
    if sh["tier"] == "quick":
        K = 6 if nd == 3 else 9
    else:
        K = 20 if nd == 3 else 64

    def go(size, answers):
        out, used = rng.scripted(lambda: rec.call(f, size, **kw), answers)
        if nd == 1 and not isinstance(out, tuple):
            out = (out,)
        return out, used

    def inside(out, key, size):
        ok = len(out) == nd and all(np.shape(o) == (size,) for o in out)
        rec.check(ok, key, "wrong number or shape of coordinates",
                  shapes=[np.shape(o) for o in out])
        if ok:
            for o, (lo, hi) in zip(out, ranges):
                e = 3e-8 + 1e-12*max(abs(lo), abs(hi))
                rec.check(bool(np.all((o >= lo - e) & (o <= hi + e))), key,
                          "point outside the requested range", got=o, lo=lo, hi=hi)
        return ok

    base = {"fn": fn, "ranges": given, "as": sh.get("as", "float")}
    # every combination of K equally likely answers
    best = None
    key = dict(base, K=K)
    with rec.case(key):
        want = np.array(list(itertools.product(rng.mid(K), repeat=nd)))
        wk = np.sort(np.floor(want*K) @ (K**np.arange(nd)))
        for lay in rng.LAYOUTS if nd > 1 else ("block",):
            out, used = go(K**nd, rng.product_grid(rng.mid(K), nd, lay))
            if not inside(out, key, K**nd):
                break
            m = np.array([measure(k, np.asarray(o, float), lo, hi)
                          for k, o, (lo, hi) in zip(KIND[fn], out, ranges)]).T
            cell = np.floor(np.clip(m, 0., 1. - 1e-15)*K)
            one = np.array_equal(np.sort(cell @ (K**np.arange(nd))), wk)
            off = float(np.max(np.abs(m*K - cell - 0.5)))
            rec.state(dict(key, layout=lay))
            for i in range(0, K**nd, max(1, K**nd//50)):
                rec.outcome([o[i] for o in out])
            best = (one, off) if best is None or one > best[0] else best
            if one and off < 1e-4*K:
                break
        if best is not None:
            rec.check(best[0] and best[1] < 1e-4*K, key,
                      "equally likely answers do not give equal-measure points",
                      one_per_cell=best[0], offset=best[1])
    # extreme answers
    for ext in itertools.product((0., 2.**-53, rng.ALMOST1), repeat=nd):
        key = dict(base, answers=ext)
        with rec.case(key):
            out, used = go(1, ext)
            inside(out, key, 1)
            rec.outcome(*out)
    for size in (0, 1, 2, 3, 7):
        key = dict(base, size=size)
        with rec.case(key):
            out, used = go(size, rng.mid(size*nd) if size else [])
            inside(out, key, size)
