"""C19: cartesian, polar and equal-area polar grids."""
import itertools

import numpy as np

from mc.core import close

SRC = False
MAPS = False
BOUNDS = {
    "quick": "1D: 8 lengths x 1..12 cells x 6 minima; 2D/3D: every combination of scalar and "
             "list forms, 1..4 cells per axis, mixed omitted minima; polar grids of 1..5 x 1..5 "
             "cells over 5 radial and 5 angular ranges; equal-area polar grids of 1..8 rings, "
             "1..6 base cells, 3 radii (counts and areas up to 10^9 rings); edges from mid-points of every 1D grid",
    "thorough": "up to 60 cells in 1D, 7 per axis in 2D, 5 in 3D, 30 rings",
}
ASSUMPTIONS = ["positive lengths, at least one cell (two for edges from mid-points)"]
LEN = [1., 10, 0.3, 2*np.pi, 1e3, 1e-3, 7, 4.5]
MIN = [None, 0., -3.5, 10, 0.1, -2]


def shards(tier):
    t = tier == "thorough"
    out = [{"kind": "1d", "len": float(x) if not isinstance(x, int) else x,
            "n": 60 if t else 12} for x in LEN]
    out += [{"kind": "2d", "n": 7 if t else 4, "n1": k} for k in range(1, (7 if t else 4) + 1)]
    out += [{"kind": "3d", "n": 5 if t else 3, "n1": k} for k in range(1, (5 if t else 3) + 1)]
    out += [{"kind": "polar", "n": 8 if t else 5}]
    out += [{"kind": "many"}]
    out += [{"kind": "ea", "nr": k, "base": 12 if t else 6} for k in range(1, (30 if t else 8) + 1)]
    return out


def axis(L, n, m):
    m = 0. if m is None else m
    e = np.array([m + L*i/n for i in range(n + 1)], dtype=float)
    return e, 0.5*(e[1:] + e[:-1])


def run(sh, rec, M):
    G = M.grids
    tol = 1e-10
    if sh["kind"] == "1d":
        L = sh["len"]
        for n in range(1, sh["n"] + 1):
            for m in MIN:
                e, mid = axis(L, n, m)
                t = 1e-12*(abs(L) + abs(m or 0.))
                key = {"d": 1, "length": L, "n": n, "min": m}
                with rec.case(key):
                    kw = {} if m is None else {"xmin": m}
                    a = rec.call(G.get_xedges, L, n, **kw)
                    rec.outcome(a)
                    ok = np.shape(a) == e.shape and np.max(np.abs(a - e)) <= t
                    rec.check(ok, key, "edges", got=a, want=e)
                    b = rec.call(G.xedges2mid, e)
                    rec.check(np.shape(b) == mid.shape and np.max(np.abs(b - mid)) <= t, key,
                              "mid-points", got=b)
                    c = rec.call(G.grid1d, L, n, **kw)
                    rec.check(np.shape(c) == mid.shape and np.max(np.abs(c - mid)) <= t, key,
                              "grid1d", got=c)
                    c = rec.call(G.grid1d, L, n, return_edges=True, **kw)
                    rec.check(len(c) == 2 and np.shape(c[1]) == e.shape and
                              np.max(np.abs(c[0] - mid)) <= t and np.max(np.abs(c[1] - e)) <= t,
                              key, "grid1d with edges")
                    if n >= 2:
                        mm = mid.copy()
                        d = np.asarray(rec.call(G.xmid2edges, mid))
                        right = d.shape == e.shape and np.max(np.abs(d - e)) <= 10*t
                        dx = mid[1] - mid[0]
                        known = np.concatenate([mid - dx, [mid[-1] + dx]])
                        if not right and d.shape == e.shape and np.max(np.abs(d - known)) <= 10*t:
                            rec.finding("xmid2edges", "edges from mid-points are displaced")
                        else:
                            rec.check(right, key, "edges from mid-points", got=d, want=e)
                        rec.check(np.array_equal(mm, mid), key, "mid-points changed")
        # uneven edges have mid-points too
        for steps in itertools.product((0.5, 1., 3.), repeat=4):
            e = np.concatenate([[sh["len"]], sh["len"] + np.cumsum(steps)])
            key = {"edges": e}
            with rec.case(key):
                b = rec.call(G.xedges2mid, e)
                rec.check(close(b, [(x + y)/2. for x, y in zip(e[1:], e[:-1])]), key,
                          "mid-points of uneven edges")
    elif sh["kind"] in ("2d", "3d"):
        d = int(sh["kind"][0])
        fn = G.grid2d if d == 2 else G.grid3d
        lens = [3., (2., 5.)] if d == 2 else [3, (2., 5., 0.5)]
        mins = [None, (None,)*d, tuple([1., -2., 7.5][:d]), (None, 4., None)[:d], (-1, None, 3)[:d]]
        for ns in itertools.product([sh["n1"]], *[range(1, sh["n"] + 1)]*(d - 1)):
            nforms = [list(ns), tuple(ns), np.array(ns)]
            if len(set(ns)) == 1:
                nforms += [ns[0], np.int64(ns[0]), np.int16(ns[0]), np.uint8(ns[0])]
            for li, L in enumerate(lens):
                lforms = [L, np.int64(L), np.float32(L), np.float64(L), np.int8(L)] if np.isscalar(L) else \
                    [list(L), L, np.array(L), np.array(L, dtype=np.float32)]
                Ls = (L,)*d if np.isscalar(L) else L
                for m in mins:
                    ms = (None,)*d if m is None else m
                    ax = [axis(Ls[i], ns[i], ms[i]) for i in range(d)]
                    want = np.meshgrid(*[a[1] for a in ax], indexing="ij")
                    for fi, nf in enumerate(nforms):
                        for fj, lf in enumerate(lforms):
                            for r1 in (None, False, True):
                                key = {"d": d, "n": ns, "nform": fi, "lform": fj, "len": L,
                                       "mins": m, "return1d": r1}
                                kw = {} if m is None else {"mins": list(m)}
                                if r1 is not None:
                                    kw["return1d"] = r1
                                with rec.case(key):
                                    o = rec.call(fn, lf, nf, **kw)
                                    rec.outcome(*o)
                                    single = getattr(lf, "dtype", None) == np.float32
                                    tol = 1e-6 if single else 1e-10
                                    rec.check(len(o) == (2*d if r1 else d), key,
                                              "number of results")
                                    ok = all(close(a, b, tol) for a, b in zip(o[:d], want))
                                    rec.check(ok, key, "grid coordinates")
                                    if r1:
                                        ok = all(close(a, b[1], tol) for a, b in zip(o[d:], ax))
                                        rec.check(ok, key, "1D mid-points")
    elif sh["kind"] == "polar":
        rr = [None, (0., 1.), (0., 5.), (2., 3.), (0.5, 10.)]
        pp = [None, (0., 2*np.pi), (0., np.pi/2), (1., 2.5), (-np.pi, np.pi)]
        for nr, npn in itertools.product(range(1, sh["n"] + 1), repeat=2):
            for r in rr:
                for p in pp:
                    kw = {}
                    if r is not None:
                        kw.update(rmin=r[0], rmax=r[1])
                    if p is not None:
                        kw.update(phimin=p[0], phimax=p[1])
                    R, P = r or (0., 1.), p or (0., 2*np.pi)
                    _, rm = axis(R[1] - R[0], nr, R[0])
                    _, pm = axis(P[1] - P[0], npn, P[0])
                    want = np.meshgrid(rm, pm, indexing="ij")
                    for r1 in (None, False, True):
                        key = {"polar": [nr, npn], "r": r, "phi": p, "return1d": r1}
                        k2 = dict(kw) if r1 is None else dict(kw, return1d=r1)
                        with rec.case(key):
                            o = rec.call(G.polargrid, nr, npn, **k2)
                            rec.outcome(*o)
                            rec.check(len(o) == (4 if r1 else 2) and close(o[0], want[0]) and
                                      close(o[1], want[1]), key, "polar grid")
                            if r1:
                                rec.check(close(o[2], rm) and close(o[3], pm), key,
                                          "1D polar mid-points")
    elif sh["kind"] == "many":
        for nr, base in ((300, 1), (600, 2), (1100, 1)):
            key = {"equal_area": nr, "base": base, "rings": "many"}
            with rec.case(key):
                r, p = rec.call(G.polarEA_grid, nr, rmax=3., base_nphi=base)
                k = base*(2*np.arange(nr) + 1)
                i = np.repeat(np.arange(nr), k)
                j = np.arange(base*nr*nr) - base*i**2
                ok = len(r) == len(p) == base*nr*nr
                rec.check(ok and bool(np.all(np.abs(r - 3.*(i + 0.5)/nr) < 1e-12)), key, "radii of many rings")
                rec.check(ok and bool(np.all(np.abs(p - 2*np.pi*(j + 0.5)/k[i]) < 1e-12)), key, "angles of many rings")
        for n in (50, 1000, 46341, 94906267, 10**9 + 7):
            for base in (1, 3, 4, 7):
                key = {"equal_area": n, "base": base}
                with rec.case(key):
                    npix = rec.call(G.polarEA_npix, n, base_nphi=base)
                    area = rec.call(G.polarEA_area, n, rmax=2., base_nphi=base)
                    rec.outcome(area)
                    rec.check(int(npix) == npix == base*n*n, key, "number of cells", got=npix)
                    rec.check(abs(area*npix/(4*np.pi) - 1.) < 1e-9, key, "cell areas do not add up", got=area)
    else:
        nr = sh["nr"]
        for base in range(1, sh["base"] + 1):
            for rmax in (None, 1., 0.25, 40.):
                key = {"equal_area": nr, "base": base, "rmax": rmax}
                R = 1. if rmax is None else rmax
                with rec.case(key):
                    for defb in ((False, True) if base == 4 else (False,)):
                        kb = {} if defb else {"base_nphi": base}
                        kr = dict(kb) if rmax is None else dict(kb, rmax=rmax)
                        r, p = rec.call(G.polarEA_grid, nr, **kr)
                        area = rec.call(G.polarEA_area, nr, **kr)
                        npix = rec.call(G.polarEA_npix, nr, **kb)
                        rec.outcome(r, p, area, npix)
                        rec.check(npix == base*nr*nr and len(r) == npix and len(p) == npix, key,
                                  "number of cells", got=[npix, len(r), len(p)])
                        rec.check(abs(area*npix - np.pi*R*R) < 1e-9*R*R, key,
                                  "cell areas do not add up to the disc", got=area)
                        i0 = 0
                        for i in range(nr):
                            k = base*(2*i + 1)
                            rs, ps = r[i0:i0 + k], p[i0:i0 + k]
                            rec.check(close(rs/R, np.full(k, (i + 0.5)/nr)), key,
                                      "radius in ring %d" % i)
                            rec.check(close(ps, (np.arange(k) + 0.5)*2*np.pi/k), key,
                                      "angles in ring %d" % i)
                            ring = np.pi*R*R*((i + 1)**2 - i**2)/nr**2
                            rec.check(abs(ring/k - area) < 1e-9*R*R, key, "areas differ")
                            i0 += k
