"""C09: the HEALPix plane and the sphere: inverse of each other, equal area."""
import itertools

import healpy as hp
import numpy as np

SRC = False
MAPS = False
BOUNDS = {
    "quick": "97 longitudes x 83 colatitudes including the poles, facet edges and the cap "
             "boundary, as scalars, arrays of lengths 0, 1, 2 and all; plane lattice of spacing "
             "pi/96 over the whole valid region; 25 longitudes at 12 distances from 1e-1 to 1e-7 from "
             "each pole, the facet edges and the cap boundaries; every array of up to 3 points out of "
             "12 that mix poles, caps and belt; 9 points at 1e-9 to 1e-13 from a pole alone and with "
             "every company of poles and other such points; areas of every cell of an nside 1, 2, 3, 8 lattice",
    "thorough": "4 times finer lattices",
}
ASSUMPTIONS = ["phi in [0, 2 pi], theta in [0, pi]; longitudes are compared modulo 2 pi and not "
               "at the poles"]
PI = np.pi


def shards(tier):
    f = 1 if tier == "quick" else 4
    out = [{"kind": "sphere", "k": k, "f": f} for k in range(8)]
    out += [{"kind": "plane", "k": k, "f": f} for k in range(8)]
    out += [{"kind": "near", "k": k, "f": f} for k in range(4)]
    out += [{"kind": "mixed", "k": k, "n": 3 if f == 1 else 4} for k in range(8)]
    out += [{"kind": "cells", "nside": n} for n in ((1, 2, 3, 8) if f == 1 else (1, 2, 3, 5, 8, 16, 32))]
    return out


def xy(ph, th):
    z = np.cos(th)
    if abs(z) <= 2./3.:
        return ph, 3*PI/8*z
    s = np.sqrt(max(0., 3*(1 - abs(z))))
    k = np.floor(ph/(PI/2))
    c = (k + 0.5)*PI/2
    return c + s*(ph - c), np.copysign(PI/4*(2 - s), z)


def ang(x, y):
    if abs(y) <= PI/4:
        return x, np.arccos(8*y/(3*PI))
    s = 2 - 4*abs(y)/PI
    k = np.floor(x/(PI/2))
    c = (k + 0.5)*PI/2
    if s <= 0.:
        return 0., np.arccos(np.sign(y))
    return c + (x - c)/s, np.arccos(np.sign(y)*(1 - s*s/3))


def dmod(a, b):
    return np.abs((a - b + PI) % (2*PI) - PI)


def run(sh, rec, M):
    C = M.coords
    if sh["kind"] == "sphere":
        f = sh["f"]
        phs = sorted(set(np.linspace(0., 2*PI, 96*f + 1)))
        ths = sorted(set(np.linspace(0., PI, 80*f + 1)) |
                     {np.arccos(2./3.), np.arccos(-2./3.), 1e-6, PI - 1e-6})
        mine = [t for i, t in enumerate(ths) if i % 8 == sh["k"]]
        for th in mine:
            pole = min(th, PI - th) < 1e-12
            key = {"theta": th}
            pa, ta = np.array(phs), np.full(len(phs), th)
            want = np.array([xy(p, th) for p in phs])
            with rec.case(key):
                x, y = rec.call(C.healpix_ang2xy, pa, ta)
                rec.outcome(x, y)
                # a longitude on a facet edge may go with either neighbouring facet
                ok = (dmod(x, want[:, 0]) < 1e-7) & (np.abs(y - want[:, 1]) < 1e-7)
                edge = np.abs((pa/(PI/2)) - np.rint(pa/(PI/2))) < 1e-12
                rec.check(bool(np.all(ok | edge)) and bool(np.all(np.abs(y - want[:, 1]) < 1e-7)), key, "sphere to plane",
                          at=pa[~(ok | edge)][:3])
                if pole:
                    rec.check(bool(np.all(np.abs(np.abs(y) - PI/2) < 1e-7)), key, "pole in the plane")
                p2, t2 = rec.call(C.healpix_xy2ang, x, y)
                rec.check(bool(np.all(np.abs(t2 - ta) < 1e-6)), key, "colatitude does not come back")
                good = ~edge if abs(np.cos(th)) > 2./3. else np.ones(len(pa), bool)
                rec.check(pole or bool(np.all(dmod(p2, pa)[good]*np.sin(th) < 1e-7)), key,
                          "longitude does not come back", got=p2[dmod(p2, pa) > 1e-7][:3])
                for n in (0, 1, 2):
                    a, b = rec.call(C.healpix_ang2xy, pa[5:5 + n], ta[5:5 + n])
                    rec.check(np.array_equal(a, x[5:5 + n]) and np.array_equal(b, y[5:5 + n]), key,
                              "array length changes the result", n=n)
            for i in range(len(phs)):
                key = {"theta": th, "phi": phs[i]}
                with rec.case(key):
                    a, b = rec.call(C.healpix_ang2xy, float(phs[i]), float(th))
                    rec.check(np.ndim(a) == 0 and abs(a - x[i]) < 1e-12 and abs(b - y[i]) < 1e-12,
                              key, "scalar and array differ", got=[a, b])
    elif sh["kind"] == "plane":
        N = 48*sh["f"]
        # offsets so that facet edges are hit as well
        xs = [PI*i/N for i in range(0, 2*N)]
        ys = [PI*j/(2*N) for j in range(-N, N + 1)]
        for n, y in enumerate(ys):
            if n % 8 != sh["k"]:
                continue
            pts = []
            for x in xs:
                if abs(y) > PI/4:
                    c = (np.floor(x/(PI/2)) + 0.5)*PI/2
                    if abs(x - c) > PI/2 - abs(y) + 1e-9:
                        continue
                pts.append(x)
            if not pts:
                continue
            xa, ya = np.array(pts), np.full(len(pts), y)
            key = {"y": y}
            want = np.array([ang(x, y) for x in pts])
            pole = abs(abs(y) - PI/2) < 1e-12
            with rec.case(key):
                p, t = rec.call(C.healpix_xy2ang, xa, ya)
                rec.outcome(p, t)
                rec.check(bool(np.all(np.abs(t - want[:, 1]) < 1e-7)), key, "colatitude", got=t)
                rec.check(pole or bool(np.all(dmod(p, want[:, 0])*np.sin(t) < 1e-7)), key,
                          "longitude", got=p)
                rec.check(bool(np.all(np.isfinite(p)) and np.all(np.isfinite(t))), key, "not finite")
                x2, y2 = rec.call(C.healpix_ang2xy, p, t)
                edge = np.abs(p/(PI/2) - np.rint(p/(PI/2))) < 1e-9
                rec.check(bool(np.all(np.abs(y2 - ya) < 1e-6)) and
                          (pole or bool(np.all((dmod(x2, xa) < 1e-6) | edge))), key,
                          "plane position does not come back")
            for i, x in enumerate(pts):
                key = {"x": x, "y": y}
                with rec.case(key):
                    a, b = rec.call(C.healpix_xy2ang, float(x), float(y))
                    rec.check(np.ndim(a) == 0 and abs(a - p[i]) < 1e-12 and abs(b - t[i]) < 1e-12,
                              key, "scalar and array differ", got=[a, b])
    elif sh["kind"] == "near":
        # close to the poles, to the facet edges and to the cap boundaries, alone and as arrays
        dist = [10.**-e for e in np.arange(1., 7.1, 0.5/sh["f"])]
        cap = np.arccos(2./3.)
        lines = [0., PI, cap, PI - cap]
        for d in dist:
            ths = [t for b in lines for t in (b - d, b + d) if 0. <= t <= PI]
            phs = sorted(set(np.linspace(0.05, 2*PI - 0.05, 25)) |
                         {q for b in range(5) for q in (b*PI/2 - d, b*PI/2 + d) if 0. < q < 2*PI})
            for n, th in enumerate(ths):
                if n % 4 != sh["k"]:
                    continue
                pa, ta = np.array(phs), np.full(len(phs), th)
                key = {"distance": d, "theta": th}
                # what one rounding of y, which is of order 1, means for the angles there
                slack = 2e-15/max(min(th, PI - th), 1e-9)
                with rec.case(key):
                    x, y = rec.call(C.healpix_ang2xy, pa, ta)
                    want = np.array([xy(p, th) for p in phs])
                    rec.check(bool(np.all(dmod(x, want[:, 0]) < 1e-7) and
                                   np.all(np.abs(y - want[:, 1]) < 1e-7)), key, "sphere to plane")
                    wp = np.array([ang(a, b) for a, b in zip(x, y)])
                    p, t = rec.call(C.healpix_xy2ang, x, y)
                    rec.outcome(p, t)
                    tol = 1e-7 + 1e-14/max(min(th, PI - th), 1e-9)**2
                    rec.check(bool(np.all(np.abs(t - ta) < 1e-7 + slack*10)) and
                              bool(np.all(dmod(p, pa) < 1e-6 + tol)), key,
                              "a point near a pole or an edge does not come back",
                              got=[p - pa, t - ta])
                    rec.check(bool(np.all(dmod(p, wp[:, 0]) < 1e-6 + tol)), key, "longitude near a pole")
                for i in range(len(phs)):
                    key = {"distance": d, "theta": th, "phi": phs[i]}
                    with rec.case(key):
                        a, b = rec.call(C.healpix_ang2xy, float(phs[i]), float(th))
                        q, s = rec.call(C.healpix_xy2ang, float(x[i]), float(y[i]))
                        rec.check(abs(a - x[i]) < 1e-12 and abs(b - y[i]) < 1e-12 and
                                  dmod(q, p[i]) < 1e-9 + tol and abs(s - t[i]) < 1e-9, key,
                                  "scalar and array differ", got=[a, b, q, s])
    elif sh["kind"] == "mixed":
        cap = np.arccos(2./3.)
        plane = [(PI/4, PI/2), (3*PI/4, -PI/2), (1., 0.9), (4., -1.2), (2., 0.1), (5., -0.3),
                 (0.3, PI/4), (6., -PI/4), (PI/4, 0.), (5*PI/4, PI/2), (0., 0.), (2.5, 1.4)]
        sphere = [(1., 0.), (2., PI), (1., 0.4), (4., 2.8), (2., 1.4), (5., 1.8), (0.3, cap),
                  (6., PI - cap), (0., 0.), (PI, PI/2), (4., 1e-3), (0., 1.)]
        # points next to a pole, down to the rounding of y, are not the pole
        tiny = [(c + 4*d/PI*q, sg*(PI/2 - d)) for d in (1e-9, 1e-11, 1e-13) for c, q, sg in
                ((PI/4, 0.5, 1), (5*PI/4, -0.6, -1), (7*PI/4, 0.1, 1))]
        want = [ang(*p) for p in tiny]
        for n in range(len(tiny)):
            if n % 8 != sh["k"]:
                continue
            d = PI/2 - abs(tiny[n][1])
            for m in range(len(tiny)):
                for others in ([], [plane[0]], [plane[1]], [plane[9], plane[2]], [tiny[m]],
                               [tiny[m], plane[0]], [plane[1], tiny[m], plane[4]]):
                    key = {"next to a pole": tiny[n], "others": others}
                    with rec.case(key):
                        a = np.array([tiny[n]] + others)
                        p, t = rec.call(C.healpix_xy2ang, a[:, 0].copy(), a[:, 1].copy())
                        q, u = rec.call(C.healpix_xy2ang, *tiny[n])
                        rec.outcome(p, t)
                        # one rounding of x and y over the distance to the pole
                        tol = 1e-7 + 4e-15/d
                        rec.check(dmod(p[0], want[n][0]) < tol and dmod(q, want[n][0]) < tol and
                                  abs(t[0] - want[n][1]) < 1e-7 and abs(u - want[n][1]) < 1e-7, key,
                                  "angles of a point next to a pole", got=[p[0], q], want=want[n])
        for name, pts, fn in (("plane", plane, C.healpix_xy2ang), ("sphere", sphere, C.healpix_ang2xy)):
            one = [np.array(rec.call(fn, *p)) for p in pts]
            for n in range(0, sh["n"] + 1):
                for m, t in enumerate(itertools.product(range(len(pts)), repeat=n)):
                    if m % 8 != sh["k"]:
                        continue
                    key = {"mixed": name, "points": t}
                    with rec.case(key):
                        a = np.array([pts[i] for i in t]).reshape(n, 2)
                        got = np.array(rec.call(fn, a[:, 0].copy(), a[:, 1].copy()))
                        rec.outcome(got)
                        w = np.array([one[i] for i in t]).reshape(n, 2).T
                        rec.check(got.shape == (2, n) and bool(np.all(np.abs(got - w) < 1e-12)), key,
                                  "a point's image depends on the other points of the array", got=got, want=w)
    else:
        ns = sh["nside"]
        # equal area: quadrature of the image of each plane diamond, and pixel membership
        d = PI/(4*ns)
        m = 12
        g = (np.arange(m) + 0.5)/m
        u, v = np.meshgrid(g, g)
        for p in range(12*ns*ns):
            key = {"nside": ns, "pix": p}
            with rec.case(key):
                th0, ph0 = hp.pix2ang(ns, p)
                cx, cy = xy(ph0, th0)
                x = (cx + d*(u + v - 1.)).ravel()
                y = (cy + d*(u - v)).ravel()
                ph, th = rec.call(C.healpix_xy2ang, x % (2*PI), y)
                rec.check(bool(np.all(hp.ang2pix(ns, th, ph % (2*PI)) == p)), key,
                          "a point of the pixel's diamond maps outside the pixel")
                # Jacobian of (phi, cos theta) against (x, y) is constant 8/(3 pi)
                e = 1e-6
                i = (np.abs(y + e) < PI/4) == (np.abs(y) < PI/4)
                px, tx = rec.call(C.healpix_xy2ang, (x + e) % (2*PI), y)
                py, ty = rec.call(C.healpix_xy2ang, x % (2*PI), y + e)
                zx, zy, z0 = np.cos(tx), np.cos(ty), np.cos(th)
                D = lambda a: (a + PI) % (2*PI) - PI
                J = D(px - ph)*(zy - z0) - D(py - ph)*(zx - z0)
                J = np.abs(J)/e**2
                f = i & (np.abs(np.abs(y) - PI/2) > 0.02)
                rec.check(bool(np.all(np.abs(J[f]*3*PI/8 - 1.) < 1e-2)), key,
                          "the projection does not preserve area", worst=J[f]*3*PI/8)
                rec.outcome(ph, th)
