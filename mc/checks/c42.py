"""C42: splitting cells changes nothing."""
import itertools

import healpy as hp
import numpy as np

SRC = True
MAPS = True
PI, TWO = np.pi, 2*np.pi
BOUNDS = {
    "quick": "grid remaps: 5 source shapes per dimension, cells split by 2, 3, 5, 16 (1D up to 1000) along every set of "
             "axes, 6 frames, targets of 1..7 cells and their splits; re-binning: 6 sets of bins split by 2, 3, 7, 100; "
             "dense and Monte Carlo Box2Ring and Cube2Shell: every split of 1..4, 7 along each axis, with and without "
             "weights, inside, partly outside, periodic; HEALPix remappers: maps of nside 1, 2, 3, 4 refined by 2, 3, 8, "
             "64 (nside up to 256); dense target cells split in all ways their sub-cells allow; radial profiles, "
             "rotations of polar grids, areas and distributions with cells split by 2, 3, 8, 50",
    "thorough": "all factors 2..12, nside up to 1024, and twice the scenes",
}
ASSUMPTIONS = ["the remaps by sample points (Box2Ring, Cube2Shell, HEALPix) are set up in general position: no point lies within "
               "rounding of an edge of the finest cells"]
BOX2 = (-1.03, 1.4, -0.9, 1.21)
BOX3 = (-1.03, 1.4, -0.9, 1.21, -1.1, 0.93)


def shards(tier):
    out = [{"part": p, "k": k} for p, n in (("grid", 6), ("rebin", 2), ("b2r", 6), ("c2s", 6), ("heal", 8), ("target", 4),
                                            ("radial", 2)) for k in range(n)]
    return [dict(s, t=tier) for s in out]


def run(sh, rec, M):
    with np.errstate(all="ignore"):
        globals()["run_" + sh["part"]](sh, rec, M)


def field(shape, k=0):
    n = int(np.prod(shape))
    f = 1.5 + np.cos(np.arange(n)*1.7) + (np.arange(n)*5) % 7
    if k == 1:
        f = np.where(np.arange(n) % 3 == 1, 0., 1.) + 1e-3*f
    return f.reshape(shape)


def split(f, ks):
    for a, k in enumerate(ks):
        f = np.repeat(f, k, axis=a)
    return f


def merge(f, ks):
    """Means of blocks of cells."""
    for a, k in enumerate(ks):
        s = f.shape[:a] + (f.shape[a]//k, k) + f.shape[a + 1:]
        f = f.reshape(s).mean(axis=a + 1)
    return f


def near(a, b, tol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol*(1. + np.nanmax(np.abs(b), initial=0.)))))


def factors(t, base=(2, 3, 5)):
    return base if t == "quick" else tuple(range(2, 13))


def run_grid(sh, rec, M):
    frames = [(1., 0., 1., 0.), (2.3, 0.3, 1.9, 0.11), (1., 0., 3., -1.), (0.7, -2., 0.1, -1.83), (1e3, 0., 1e3, 10.),
              (1., 5., 0.4, 5.3)]
    shapes = {1: [(1,), (2,), (3,), (7,), (20,)], 2: [(1, 1), (2, 3), (5, 1), (1, 4), (6, 7)],
              3: [(1, 1, 1), (2, 1, 3), (3, 2, 2), (1, 4, 2), (4, 3, 5)]}
    L, o, Lo, oo = frames[sh["k"]]
    fns = {1: M.remap.grid2grid1D, 2: M.remap.grid2grid2D, 3: M.remap.grid2grid3D}
    for dim in (1, 2, 3):
        def go(f, m):
            if dim == 1:
                return rec.call(fns[1], f, L, m[0], origin=o, originout=oo, boxsizeout=Lo)
            return rec.call(fns[dim], f, L*(1. + 0.1*np.arange(dim)), list(m), origin=o*np.ones(dim),
                            originout=oo*np.ones(dim), boxsizeout=Lo*np.ones(dim))
        ks = factors(sh["t"]) + ((16, 1000) if dim == 1 else (16,) if dim == 2 else ())
        for n in shapes[dim]:
            for m in {1: [(1,), (2,), (5,), (7,)], 2: [(1, 1), (3, 2), (7, 5)], 3: [(1, 1, 1), (2, 3, 1), (3, 2, 4)]}[dim]:
                f = field(n)
                key = {"cells": n, "to": m, "frame": (L, o, Lo, oo)}
                with rec.case(key):
                    g = go(f, m)
                    rec.outcome(g.ravel()[-2:])
                    for k in ks:
                        for axes in itertools.product((1, k), repeat=dim):
                            if max(axes) == 1 or dim == 3 and np.prod(axes) > 300:
                                continue
                            rec.check(near(go(split(f, axes), m), g), dict(key, split=axes),
                                      "finer cells with the same values")
                            if dim == 1 or np.prod(axes) <= 64:
                                fine = go(f, tuple(a*b for a, b in zip(m, axes)))
                                rec.check(near(merge(fine, axes), g), dict(key, target=axes),
                                          "a cell is the mean of its parts")


def run_rebin(sh, rec, M):
    sets = [np.array([0., 1.]), np.array([0., 1., 1.5]), np.array([-2., -1.9, 0.4, 3.]), np.linspace(0., 1., 11),
            np.array([0., 1e-3, 1., 10., 11.]), np.array([100., 100.3, 101., 104.])]
    R = M.one_d.rebin_1d
    for q, e in enumerate(sets):
        if q % 2 != sh["k"]:
            continue
        n = len(e) - 1
        lo, hi = e[0], e[-1]
        span = hi - lo
        news = [np.array([lo, hi]), np.linspace(lo - 0.1*span, hi + 0.2*span, 6), lo + span*np.array([0.013, 0.27, 0.271, 0.9]),
                lo + span*np.array([-0.3, 0.0417, 1.3]), np.linspace(lo, hi, 14)[2:9] + 1e-3*span]
        for (i, new), k in itertools.product(enumerate(news), (2, 3, 7, 100) if sh["t"] == "quick" else range(2, 130, 3)):
            fine = np.concatenate([e[j] + (e[j + 1] - e[j])*np.arange(k)/k for j in range(n)] + [e[-1:]])
            f, w = field(n), 0.5 + np.arange(n) % 3
            key = {"bins": e, "new": i, "split": k}
            with rec.case(key):
                g, h = rec.call(R, e, f, new), rec.call(R, e, f, new, w=w)
                rec.check(near(rec.call(R, fine, np.repeat(f, k), new), g, 1e-9), key, "finer bins with the same values")
                rec.check(near(rec.call(R, fine, np.repeat(f, k), new, w=np.repeat(w, k)), h, 1e-9), key,
                          "finer bins with the same values and weights")
                rec.outcome(g, h)


def run_b2r(sh, rec, M):
    rings = [dict(a=(0.13, 0.57, 3, 4), k=dict(center=[0.13, -0.07])),
             dict(a=(0.23, 1.71, 4, 3), k=dict(center=[0.37, 0.21], pmin=0.21, pmax=4.93)),
             dict(a=(0.11, 0.83, 2, 5), k=dict(center=[-0.93, 1.03], phi_shift=0.77))]
    ring = rings[sh["k"] % 3]
    mod = M.densegrid if sh["k"] < 3 else M.montecarlo
    big = (1, 2, 3, 4, 7) if sh["t"] == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 16, 50)
    for (nx, ny), log in itertools.product(((3, 2), (1, 4), (8, 5)), (False, True) if mod is M.montecarlo else (False,)):
        def make(kx, ky, f, w):
            o = mod.Box2Ring()
            o.setup_box(BOX2[0], BOX2[1], nx*kx, BOX2[2], BOX2[3], ny*ky)
            if mod is M.densegrid:
                o.setup_polar(*ring["a"], rebin_r=3, rebin_p=2, **ring["k"])
            else:
                (o.setup_polar_log if log else o.setup_polar_lin)(*ring["a"], **ring["k"])
                np.random.seed(5)
                o.get_weights(mc_size=40, verbose=False)
            o.get_mask_in_bound(verbose=False)
            f, w = split(f, (ky, kx)), split(w, (ky, kx))
            a = o.remap(f, verbose=False)
            b = o.remap(f, w=w, verbose=False)
            s = o.polar2radial(a, sigma=np.abs(a) + 1.)
            return [a, b, o.mask_in_bound, s[0], s[1]*np.sqrt(kx*ky)]
        for q in (0, 1):
            f, w = field((ny, nx), q), 0.5 + field((ny, nx), 1 - q) % 3
            key = {"mc": mod is M.montecarlo, "ring": ring, "cells": (nx, ny), "log": log, "field": q}
            with rec.case(key):
                ref = rec.call(make, 1, 1, f, w)
                for kx, ky in itertools.product(big, big):
                    if kx*ky == 1 or q and kx != ky:
                        continue
                    got = rec.call(make, kx, ky, f, w)
                    for what, a, b in zip(("remap", "weighted remap", "mask", "radial profile", "radial errors"), got, ref):
                        rec.check(near(a, b), dict(key, split=(kx, ky)), what + " of finer cells with the same values",
                                  got=np.ravel(a)[:5], want=np.ravel(b)[:5])
                rec.outcome(ref[0].ravel()[:2])


def run_c2s(sh, rec, M):
    scenes = [dict(a=(0.13, 0.57, 3, 1), center=[0.13, -0.07, 0.11]), dict(a=(0.23, 1.71, 2, 2), center=[0.37, 0.21, -0.3]),
              dict(a=(0.11, 0.83, 2, 1), center=[-0.93, 1.03, 0.8])]
    sc = scenes[sh["k"] % 3]
    dense = sh["k"] < 3
    big = (1, 2, 3) if sh["t"] == "quick" else (1, 2, 3, 4, 7)
    for (nx, ny, nz), p in itertools.product(((3, 2, 2), (1, 4, 3)), range(3)):
        def make(ks, f, w):
            o = (M.densegrid if dense else M.montecarlo).Cube2Shell()
            b = BOX3
            o.setup_cube(b[0], b[1], nx*ks[0], b[2], b[3], ny*ks[1], b[4], b[5], nz*ks[2])
            order = (ks[1], ks[0], ks[2])
            f, w = split(f, order), split(w, order)
            if dense:
                kw = [{}, {"periodicx": [-1, 1]}, {"periodicx": [0, 1], "periodicy": [-1, 0], "periodicz": [-1, 1]}][p]
                o.setup_polar(*sc["a"], center=sc["center"], rebin_r=3, rebin_shell=2, **kw)
                return [o.remap(f, verbose=False)]
            if p == 0:
                o.setup_polar_lin(*sc["a"], center=sc["center"])
            else:
                o.setup_polar_log(*sc["a"], center=sc["center"], addzero=p == 1)
            np.random.seed(5)
            o.get_weights(mc_size=12, verbose=False)
            return [o.remap(f, verbose=False), o.remap(f, w=w, verbose=False)]
        f = field((ny, nx, nz))
        w = 0.5 + field((ny, nx, nz), 1) % 3
        key = {"dense": dense, "scene": sc, "cells": (nx, ny, nz), "way": p}
        with rec.case(key):
            ref = rec.call(make, (1, 1, 1), f, w)
            for ks in itertools.product(big, repeat=3):
                if ks == (1, 1, 1):
                    continue
                for a, b in zip(rec.call(make, ks, f, w), ref):
                    rec.check(near(a, b), dict(key, split=ks), "finer cells with the same values", got=a.ravel()[:5],
                              want=b.ravel()[:5])
            rec.outcome(ref[0].ravel()[:2])


def finer(h, k):
    """The map with every pixel replaced by its k*k parts."""
    ns = hp.npix2nside(len(h))
    t, p = hp.pix2ang(ns*k, np.arange(12*(ns*k)**2))
    return h[hp.ang2pix(ns, t, p)]


def run_heal(sh, rec, M):
    D, C = M.densegrid, M.montecarlo
    cap = dict(center=[1.13, 0.87], beta_shift=0.37)
    cap2 = dict(center=[5.1, 2.2], beta_min=0.3, beta_max=4.1)
    box = dict(center=[1.13, 0.87], y_length=0.53, y_grid=3)
    box2 = dict(center=[4.03, 2.91])
    ways = {
        "dense Heal2Ring": lambda o: o.setup_polar_cap(0.13, 1.57, 3, 4, rebin_alpha=3, rebin_beta=2, **cap),
        "dense Heal2Ring part": lambda o: o.setup_polar_cap(0.23, 3.01, 4, 3, rebin_alpha=2, rebin_beta=5, **cap2),
        "dense Heal2Polar": lambda o: o.setup_box(0.71, 4, rebin_x=3, rebin_y=2, alpha=0.6, **box),
        "dense Heal2Polar wide": lambda o: o.setup_box(1.53, 3, rebin_x=2, rebin_y=5, **box2),
        "dense Heal2Ortho": lambda o: o.setup_box(0.71, 4, rebin_x=3, rebin_y=2, **box),
        "dense Heal2Ortho wide": lambda o: o.setup_box(2.53, 5, rebin_x=2, rebin_y=5, radius=1.13, **box2),
        "mc Heal2Ring": lambda o: o.setup_polar_cap(0.13, 1.57, 3, 4, **cap),
        "mc Heal2Ring part": lambda o: o.setup_polar_cap(0.23, 3.01, 4, 3, **cap2),
        "mc Heal2Polar": lambda o: o.setup_box(0.71, 4, alpha=0.6, **box),
        "mc Heal2Polar wide": lambda o: o.setup_box(1.53, 3, **box2),
    }
    ks = (2, 3, 8, 64) if sh["t"] == "quick" else (2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 64, 128, 256)
    for q, (name, ns) in enumerate(itertools.product(ways, (1, 2, 3, 4))):
        if q % 8 != sh["k"]:
            continue

        def make(n, f, w):
            o = getattr(C if name[0] == "m" else D, name.split()[1])()
            o.setup_map(n)
            ways[name](o)
            if name[0] == "m":
                np.random.seed(7)
                o.get_weights(mc_size=50, verbose=False)
            a = o.remap(f, verbose=False)
            out = [a, o.remap(f, w=w, verbose=False)]
            if "Ring" in name:
                s = o.polar2radial(a, sigma=np.abs(a) + 1.)
                out += [s[0], s[1]*n]
            return out
        f, w = field(12*ns*ns), 0.5 + field(12*ns*ns, 1) % 3
        key = {"remap": name, "nside": ns}
        with rec.case(key):
            ref = rec.call(make, ns, f, w)
            ref_n = [r/(ns if i == 3 else 1) for i, r in enumerate(ref)]
            for k in ks:
                if ns*k > (256 if sh["t"] == "quick" else 1024):
                    continue
                got = rec.call(make, ns*k, finer(f, k), finer(w, k))
                got = [r/(ns if i == 3 else 1) for i, r in enumerate(got)]
                for what, a, b in zip(("remap", "weighted remap", "radial profile", "radial errors"), got, ref_n):
                    rec.check(near(a, b), dict(key, finer=k), what + " of a finer map with the same values",
                              got=np.ravel(a)[:5], want=np.ravel(b)[:5])
            rec.outcome(ref[0].ravel()[:2])


def run_target(sh, rec, M):
    """Target cells of dense remaps and their parts, with the same sub-cells."""
    D = M.densegrid
    R, P = 6, 4
    divs = [(a, b) for a in (1, 2, 3, 6) for b in (1, 2, 4)]

    def join(g, wt, a, b):
        """g: rows split by b, columns split by a; wt: weight of every column."""
        ny, nx = g.shape[0]//b, g.shape[1]//a
        g = (g*wt).reshape(ny, b, nx, a).sum(axis=(1, 3))
        return g/(b*wt.reshape(nx, a).sum(axis=1))
    if sh["k"] == 0:
        F = field((7, 9))
        for kw in (dict(center=[0.13, -0.07]), dict(center=[0.37, 0.21], pmin=0.21, pmax=4.93), dict(phi_shift=5.1)):
            for lo, hi in ((0., 0.71), (0.13, 1.87)):
                def make(a, b):
                    o = D.Box2Ring()
                    o.setup_box(BOX2[0], BOX2[1], 9, BOX2[2], BOX2[3], 7)
                    o.setup_polar(lo, hi, 2*a, 3*b, rebin_r=R//a, rebin_p=P//b, **kw)
                    re = np.linspace(lo, hi, 2*a + 1)
                    return join(o.remap(F), re[1:]**2 - re[:-1]**2, a, b)
                one(rec, {"remap": "Box2Ring", "set-up": kw, "r": (lo, hi)}, make, divs)
    elif sh["k"] == 1:
        H = field(12*8*8)
        for kw in (dict(center=[1.13, 0.87]), dict(center=[5.1, 2.2], beta_min=0.3, beta_max=4.1), dict(beta_shift=2.2)):
            for lo, hi in ((0., 0.71), (0.13, 2.87)):
                def make(a, b):
                    o = D.Heal2Ring()
                    o.setup_map(8)
                    o.setup_polar_cap(lo, hi, 2*a, 3*b, rebin_alpha=R//a, rebin_beta=P//b, **kw)
                    e = np.linspace(lo, hi, 2*a + 1)
                    return join(o.remap(H), np.cos(e[:-1]) - np.cos(e[1:]), a, b)
                one(rec, {"remap": "Heal2Ring", "set-up": kw, "alpha": (lo, hi)}, make, divs)
    elif sh["k"] == 2:
        H = field(12*8*8)
        for name, kw in itertools.product(("Heal2Polar", "Heal2Ortho"), (dict(center=[1.13, 0.87]), dict(center=[5.1, 2.9]))):
            def make(a, b):
                o = getattr(D, name)()
                o.setup_map(8)
                o.setup_box(0.71, 2*a, y_length=0.53, y_grid=3*b, rebin_x=R//a, rebin_y=P//b, **kw)
                g = o.remap(H)
                if name == "Heal2Ortho":
                    return join(g, np.ones(2*a), a, b)
                # rows have the areas of their latitudes
                s = np.sin(np.linspace(-0.265, 0.265, 3*b + 1))
                return join(g.T, s[1:] - s[:-1], b, a).T
            one(rec, {"remap": name, "set-up": kw}, make, divs)
    else:
        F = field((7, 9, 5))
        for c, (lo, hi) in itertools.product(([0.13, -0.07, 0.11], [0.9, 0.8, -1.]), ((0., 0.71), (0.13, 1.87))):
            def make(a, b):
                o = D.Cube2Shell()
                o.setup_cube(BOX3[0], BOX3[1], 9, BOX3[2], BOX3[3], 7, BOX3[4], BOX3[5], 5)
                o.setup_polar(lo, hi, 2*a, b, center=c, rebin_r=R//a, rebin_shell=8//b)
                e = np.linspace(lo, hi, 2*a + 1)
                v = (e[1:]**3 - e[:-1]**3)[:, None]
                g = o.remap(F, verbose=False)*v
                g = g.reshape(2, a, -1).sum(axis=1)/v.reshape(2, a, 1).sum(axis=1)
                return np.array([hp.ud_grade(x, 1) for x in g])
            one(rec, {"remap": "Cube2Shell", "center": c, "r": (lo, hi)}, make, [(a, b) for a in (1, 2, 3, 6) for b in (1, 2, 4, 8)])


def one(rec, key, make, divs):
    with rec.case(key):
        ref = rec.call(make, 1, 1)
        for a, b in divs:
            g = rec.call(make, a, b)
            rec.check(near(g, ref), dict(key, parts=(a, b)), "a cell is the mean of its parts", got=g.ravel()[:5],
                      want=ref.ravel()[:5])
        rec.outcome(ref.ravel()[:3])


def run_radial(sh, rec, M):
    P, C, R = M.polar, M.coords, M.randoms
    ks = (2, 3, 8, 50) if sh["t"] == "quick" else range(2, 100)
    if sh["k"] == 0:
        for nr, nphi, k in itertools.product((1, 2, 5), (1, 3, 8), ks):
            f, s, w = field((nphi, nr)), 1. + field((nphi, nr), 1), 0.5 + field((nphi, nr)) % 2
            re, pe = np.linspace(0.2, 1.9, nr + 1), np.linspace(0., TWO, nphi + 1)
            key = {"rings": nr, "angles": nphi, "split": k}
            with rec.case(key):
                ar = rec.call(P.get_polar_area2d, re, pe)
                fa = rec.call(P.get_polar_area2d, re, np.linspace(0., TWO, nphi*k + 1))
                rec.check(near(fa.reshape(nphi, k, nr).sum(axis=1), ar), key, "areas add up")
                fr = rec.call(P.get_polar_area2d, np.linspace(0.2, 1.9, nr*k + 1), pe)
                rec.check(near(fr.reshape(nphi, nr, k).sum(axis=2), ar), key, "areas of rings add up")
                for ww in (None, w):
                    a = rec.call(P.polar2radial, f, ar, 1e-3, sigma=s, w=ww)
                    b = rec.call(P.polar2radial, split(f, (k, 1)), fa, 1e-3, sigma=split(s, (k, 1)),
                                 w=None if ww is None else split(ww, (k, 1)))
                    rec.check(near(b[0], a[0]), dict(key, w=ww is not None), "profile of finer cells")
                    rec.check(near(b[1], a[1]), dict(key, w=ww is not None), "errors of finer cells", got=b[1], want=a[1])
                c = rec.call(P.cumulative_radial, re, f[0])
                d = rec.call(P.cumulative_radial, np.linspace(0.2, 1.9, nr*k + 1), np.repeat(f[0], k))
                rec.check(near(d[::k], c), key, "cumulative profile of finer rings")
                for at in (0.01, 0.7, PI, 3.3, 6.2):
                    a = rec.call(C.rotate_polar_grid, pe, f, at)
                    b = rec.call(C.rotate_polar_grid, np.linspace(0., TWO, nphi*k + 1), split(f, (k, 1)), at)
                    rec.check(near(merge(b, (k, 1)), a, 1e-11), dict(key, by=at), "rotation of finer cells", got=b, want=a)
                rec.outcome(a.ravel()[:2])
    else:
        for n, k in itertools.product((2, 3, 9), ks):
            x = (np.arange(n) + 0.5)*0.7/n + 0.1
            fx = (np.arange(n*k) + 0.5)*0.7/(n*k) + 0.1
            p = field(n)
            key = {"density": n, "split": k}
            with rec.case(key):
                a, b = rec.call(R.pdf2cdf, x, p), rec.call(R.pdf2cdf, fx, np.repeat(p, k))
                rec.check(near(b[0][::k], a[0]) and near(b[1][::k], a[1]) and near(b[2][::k], a[2], 1e-11), key,
                          "distribution of a finer density")
                for seed in range(4):
                    np.random.seed(seed)
                    u = rec.call(R.randoms_cdf, a[0], a[1], 50, kind="linear")
                    np.random.seed(seed)
                    v = rec.call(R.randoms_cdf, b[0], b[1], 50, kind="linear")
                    rec.check(near(v, u, 1e-11), dict(key, seed=seed), "draws from a finer distribution")
                    np.random.seed(seed)
                    v = rec.call(R.randoms_pdf, fx, np.repeat(p, k), 50, kind="linear")
                    rec.check(near(v, u, 1e-11), dict(key, seed=seed), "draws from a finer density")
                rec.outcome(u[:2])
        for a, b, t, u in itertools.product((0., 0.3, 5.), (0.9, 6.), (0., 0.4, 2.), (0.5, PI)):
            if a >= b or t >= u:
                continue
            for k, j in itertools.product((1, 2, 7, 50), repeat=2):
                key = {"segment": (a, b, t, u), "parts": (k, j)}
                with rec.case(key):
                    pe, te = np.linspace(a, b, k + 1), np.linspace(t, u, j + 1)
                    v = sum(rec.call(C.usphere_area, pe[i], pe[i + 1], te[q], te[q + 1]) for i in range(k) for q in range(j))
                    rec.check(near(v, rec.call(C.usphere_area, a, b, t, u)), key, "areas of segments add up")
                    rec.outcome(v)
