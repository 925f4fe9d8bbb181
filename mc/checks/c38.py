"""C38: size makes no difference."""
import itertools

import healpy as hp
import numpy as np

from mc import ref_maps as rm
from mc import rng, rot

SRC = True
MAPS = True
PI, TWO = np.pi, 2*np.pi
POINTS = {"quick": list(range(1, 131)) + [199, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
                                          2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9999, 10000, 10001,
                                          16384, 16385, 20001, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 100001],
          "thorough": list(range(1, 1026)) + [2**k + d for k in range(11, 20) for d in (-1, 0, 1)] +
          [10**k + d for k in range(3, 7) for d in (-1, 0, 1)] + [3*10**k for k in range(3, 6)]}
CELLS = {"quick": (1, 2, 3, 7, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511,
                   512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2049),
         "thorough": tuple(range(1, 300)) + (511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049,
                                             3000, 4095, 4096, 4097, 5000)}
BOUNDS = {
    "quick": "28 functions of points and pixels on arrays of every length 1..130 and around powers of two and of ten to "
             "100001; 16 samplers at the same sizes with 4 constant answers of the random source; 1D grid remaps and "
             "re-binnings between all pairs of 33 sizes 1..2049 with ordinary and large values; 2D remaps to 400^2, 3D "
             "to 50^3, with up to 172200 source cells under one target cell; grids to 10^6 edges; samples to 200003 items by sixteenths; every remapper with up to 600 rows or columns of cells and up to 200000 "
             "random points or 300 sub-cells against the same cells alone",
    "thorough": "all lengths 1..1025 and to 10^6; all pairs of 316 sizes with the sizes to 5000",
}
ASSUMPTIONS = ["an element's value alone is right (other checks); here only that it does not depend on how many there are"]


def elements(M):
    """name: (function of arrays, arrays of elements)."""
    C, X, P, D = M.coords, M.pixel, M.polar, M.densegrid
    u = np.arange(61)
    phi, th = (u*0.9 + 0.1) % TWO, np.concatenate([[0., PI, 0.5*PI], 0.05 + (u[3:]*0.61) % 3.03])
    x, y, z = (np.sin(u*k)*(2. + k) for k in (1.1, 2.3, 0.7))
    x[:5], y[:5], z[:5] = [0., 1., -1., 0., 0.], [0., 0., 0., 1., -1.], [1., 0., 2., 0., -1.]
    c2, c3 = [0.3, -0.2], [0.3, -0.2, 0.6]
    out = {
        "cart2polar": (lambda a, b: C.cart2polar(a, b, center=c2), (x, y)),
        "polar2cart": (lambda a, b: C.polar2cart(a, b, center=c2), (abs(x), phi)),
        "cart2sphere": (lambda a, b, c: C.cart2sphere(a, b, c, center=c3), (x, y, z)),
        "sphere2cart": (lambda a, b, c: C.sphere2cart(a, b, c, center=c3), (abs(x), phi, th)),
        "ortho2cart": (lambda a, b: C.ortho2cart(a, b, r=2.), (x, y)),
        "ortho2cart fill": (lambda a, b: C.ortho2cart(a, b, r=2., fill_value=7.), (x, y)),
        "healpix_ang2xy": (C.healpix_ang2xy, (phi, th)),
        "rotate_polar": (lambda a: C.rotate_polar(a, 2.7), (phi,)),
        "rotate_polar far": (lambda a: C.rotate_polar(a, 5.9), (phi,)),
        "usphere_rotate": (lambda a, b: C.usphere_rotate(a, b, 1.3, 0.4, phi_start=0.2, theta_start=2.), (phi, th)),
        "usphere_rotate pole": (lambda a, b: C.usphere_rotate(a, b, 1.3, 0.4), (phi, th)),
        "usphere_phi_shift": (lambda a: C.usphere_phi_shift(a, 3.3), (phi,)),
        "usphere_shift": (lambda a, b: C.usphere_shift(a, b, 0.2, 0.5, 4., 1.9), (phi, th)),
        "usphere_spin": (lambda a, b: C.usphere_spin(a, b, 0.2, 0.5, 2.1), (phi, th)),
        "sphere2lonlat": (C.sphere2lonlat, (th,)),
        "lonlat2sphere": (C.lonlat2sphere, (th - 0.5*PI,)),
    }
    hx, hy = C.healpix_ang2xy(phi, th)
    out["healpix_xy2ang"] = (C.healpix_xy2ang, (hx, hy))
    for ns in (1, 4, 6, 64, 8192):
        npx = 12*ns*ns
        p = np.unique((np.arange(61)*npx)//60 % npx)
        out["healpix_pix2ij %d" % ns] = (lambda a, ns=ns: X.healpix_pix2ij(a, ns), (p,))
        out["healpix_pix2xy %d" % ns] = (lambda a, ns=ns: X.healpix_pix2xy(a, ns), (p,))
        i, j = X.healpix_pix2ij(p, ns)
        out["healpix_ij2pix %d" % ns] = (lambda a, b, ns=ns: X.healpix_ij2pix(a, b, ns), (i, j))
        out["healpix_ij2xy %d" % ns] = (lambda a, b, ns=ns: X.healpix_ij2xy(a, b, ns), (i, j))
        out["healpix_i2id %d" % ns] = (lambda a, ns=ns: X.healpix_i2id(a, ns), (i,))
        out["healpix_j2jd %d" % ns] = (lambda a, b, ns=ns: X.healpix_j2jd(a, b, ns), (i, j))
        a, b = X.healpix_i2id(i, ns), X.healpix_j2jd(i, j, ns)
        out["healpix_ijd2ijs %d" % ns] = (lambda a, b, ns=ns: X.healpix_ijd2ijs(a, b, ns), (a, b))
        s = X.healpix_ijd2ijs(a, b, ns)
        out["healpix_ijs2ijd %d" % ns] = (lambda a, b, ns=ns: X.healpix_ijs2ijd(a, b, ns), tuple(s))
    v = D.PointOfView()
    v.setup([0.3, -0.2, 0.7], [1.3, 0.8, 0.2], 0.5, spin=0.4)
    out["PointOfView.transform"] = (v.transform, (x*1.7, y, z))
    out["PointOfView.reverse"] = (v.reverse, (x*1.7, y, abs(z) + 0.5))
    o = D.Heal2Ortho()
    o.setup_map(2)
    o.setup_box(2., 3, center=[1., 0.8])
    out["Heal2Ortho.transform"] = (o.transform, (phi, th))
    out["xedges2mid"] = (lambda a: (M.grids.xedges2mid(np.repeat(a, 2) + np.tile([0., 1.], len(a)))[::2],), (x,))
    pm = P.get_polar_area2d
    out["get_polar_area2d r"] = (lambda a: pm(np.concatenate([[0.], np.repeat(a, 2) + np.tile([0., .5], len(a))]),
                                              np.array([0., 1., 1.5]))[:, 1::2].T, (abs(x) + 0.1,))
    return out


def samplers(M):
    R = M.randoms
    xm = np.arange(0.5, 9.)
    pdf = 1. + (np.arange(9)*4) % 7
    x, cdf = R.pdf2cdf(xm, pdf, return_normpdf=False)
    out = {
        "randoms_1d": lambda n: R.randoms_1d(n, xmin=-0.3, xmax=2.),
        "randoms_2d": lambda n: R.randoms_2d(n, mins=[-0.3, 1.], maxs=[2., 1.1]),
        "randoms_3d": lambda n: R.randoms_3d(n, mins=[-0.3, 1., 5.], maxs=[2., 1.1, 9.]),
        "randoms_polar": lambda n: R.randoms_polar(n, r_min=0.4, r_max=2., phi_min=0.7, phi_max=3.),
        "randoms_sphere_r": lambda n: R.randoms_sphere_r(n, r_min=0.4, r_max=2.),
        "randoms_sphere": lambda n: R.randoms_sphere(n, r_min=0.4, r_max=2., phi_min=0.7, phi_max=3., theta_min=0.4,
                                                     theta_max=2.),
        "randoms_usphere": lambda n: R.randoms_usphere(n, phi_min=0.7, phi_max=3., theta_min=0.4, theta_max=2.),
    }
    for k in ("linear", "cubic", "quadratic"):
        out["randoms_cdf " + k] = lambda n, k=k: R.randoms_cdf(x, cdf, n, kind=k)
    for k in ("linear", "cubic"):
        out["randoms_pdf " + k] = lambda n, k=k: R.randoms_pdf(xm, pdf, n, kind=k)
    for p, ns in ((0, 1), (11, 1), (4, 2), (77, 4), (190, 4)):
        out["randoms_healpix_pixel %d %d" % (p, ns)] = lambda n, p=p, ns=ns: R.randoms_healpix_pixel(n, p, ns)
    return out


def as_rows(r, n):
    """Results of n elements: an array (number of results, n, ...)."""
    r = r if isinstance(r, tuple) else (r,)
    return [np.asarray(a, float) for a in r]


def same(a, b, tol=1e-11):
    with np.errstate(invalid="ignore"):
        return (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol*(1. + np.abs(b)))


def fractions(e, n):
    """Row per new bin: fraction of the new bin covered by each old bin."""
    lo = np.maximum(e[None, :-1], n[:-1, None])
    hi = np.minimum(e[None, 1:], n[1:, None])
    return np.clip(hi - lo, 0., None)


NE, NS = 8, 8


def shards(tier):
    out = [{"part": "elements", "k": k} for k in range(NE)] + [{"part": "samplers", "k": k} for k in range(NS)]
    out += [{"part": "grid1", "k": k} for k in range(8)] + [{"part": "rebin", "k": k} for k in range(8)]
    out += [{"part": "grid23", "k": k} for k in range(4)] + [{"part": "grids"}]
    out += [{"part": "maps", "k": k} for k in range(MAPN)]
    return [dict(s, t=tier) for s in out]


MAPN = 12


def run(sh, rec, M):
    with np.errstate(all="ignore"):
        globals()["run_" + sh["part"]](sh, rec, M)


def run_elements(sh, rec, M):
    for name, (fn, el) in list(elements(M).items())[sh["k"]::NE]:
        A = len(el[0])
        # the elements each alone
        with rec.case({"function": name}):
            alone = [as_rows(rec.call(fn, *[np.array([e[i]]) for e in el]), 1) for i in range(A)]
            ref = [np.concatenate([a[q].reshape(1, -1) for a in alone]) for q in range(len(alone[0]))]
        sizes = POINTS[sh["t"]]
        if name.startswith("usphere_"):
            sizes = [n for n in sizes if n <= 33000]
        for n in sizes:
            i = (np.arange(n)*17 + n) % A
            key = {"function": name, "size": n}
            with rec.case(key):
                got = as_rows(rec.call(fn, *[e[i] for e in el]), n)
                if not rec.check(len(got) == len(ref), key, "number of results"):
                    continue
                for g, r in zip(got, ref):
                    w = r[i]
                    g = g.reshape(n, -1) if g.size == w.size else g
                    if rec.check(g.shape == w.shape, key, "shape", got=g.shape, want=w.shape):
                        ok = same(g, w)
                        rec.check(bool(np.all(ok)), key, "an element's value depends on the length of the array",
                                  at=np.argwhere(~ok)[:3], got=g[~ok][:3], want=w[~ok][:3])
                    rec.outcome(g[-1:])


def run_samplers(sh, rec, M):
    for name, fn in list(samplers(M).items())[sh["k"]::NS]:
        for u in (0.23, 0.5, 0.77, 1. - 2.**-53):
            with rec.case({"sampler": name, "answer": u}):
                ref = np.array(as_rows(rec.call(lambda: rng.constant(lambda: fn(1), u)), 1)).ravel()
            for n in POINTS[sh["t"]]:
                if n > 5000 and (u != 0.23 or n > 200000):
                    continue
                key = {"sampler": name, "answer": u, "size": n}
                with rec.case(key):
                    g = rec.call(lambda: rng.constant(lambda: fn(n), u))
                    g = np.array(as_rows(g, n)).reshape(len(ref), -1)
                    if rec.check(g.shape == (len(ref), n), key, "number of points", got=g.shape):
                        ok = same(g, ref[:, None])
                        rec.check(bool(np.all(ok)), key, "a point depends on the number of points",
                                  at=np.argwhere(~ok)[:3], got=g[~ok][:3], want=ref)
                    rec.outcome(g[:, -1])


def field(n, k):
    f = 1.5 + np.cos(np.arange(n)*1.7) + (np.arange(n)*5) % 7
    return f if k == 0 else 1e9 + np.round(f*10.) + 0.25


def rel(got, want, scale, tol=1e-12):
    return bool(np.all(np.abs(got - want) <= tol*scale))


def run_grid1(sh, rec, M):
    sizes = CELLS[sh["t"]]
    big = sizes if sh["t"] == "quick" else sizes[:200:7] + sizes[-20:]
    for q, (n, m) in enumerate(itertools.product(big, big)):
        if q % 8 != sh["k"]:
            continue
        for L, o, Lo, oo in ((1., 0., 1., 0.), (2.3, 0.3, 1.9, 0.11), (1., 0., 3., -1.)):
            e, new = np.linspace(o, o + L, n + 1), np.linspace(oo, oo + Lo, m + 1)
            W = fractions(e, new)/(Lo/m)
            for k in (0, 1):
                key = {"cells": n, "to": m, "box": (L, o, Lo, oo), "values": k}
                with rec.case(key):
                    f = field(n, k)
                    g = rec.call(M.remap.grid2grid1D, f, L, m, origin=o, originout=oo, boxsizeout=Lo)
                    w = W @ f
                    rec.check(rel(g, w, np.abs(f).max(), 1e-11), key, "remap of a large grid",
                              worst=np.max(np.abs(g - w)))
                    rec.outcome(g[-1:])


def run_rebin(sh, rec, M):
    sizes = CELLS[sh["t"]]
    big = sizes if sh["t"] == "quick" else sizes[:200:11] + sizes[-20:]
    for q, (n, m) in enumerate(itertools.product(big, big)):
        if q % 8 != sh["k"]:
            continue
        j = 0.3/n*np.sin(np.arange(n + 1)*2.3)
        e = np.linspace(0., 1., n + 1) + j
        new = np.linspace(0.03, 0.98, m + 1)
        cov = fractions(e, new)/(e[1:] - e[:-1])
        cov[np.abs(cov) < 1e-13] = 0.
        tot = cov.sum(axis=1)
        ok = tot > 1e-6
        for k in (0, 1):
            key = {"bins": n, "to": m, "values": k}
            with rec.case(key):
                f, s, w = field(n, k), 0.5 + np.arange(n) % 3, 1. + np.arange(n) % 4
                g = rec.call(M.one_d.rebin_1d, e, f, new)
                h, d = rec.call(M.one_d.rebin_1d, e, f, new, w=w, sigma=s)
                cw = cov*w
                for what, a, b, sc in (("data", g[ok], (cov@f)[ok]/tot[ok], f.max()),
                                       ("weighted data", h[ok], (cw@f)[ok]/cw.sum(axis=1)[ok], f.max()),
                                       ("errors", d[ok], np.sqrt((cov*w**2@s**2)[ok])/cw.sum(axis=1)[ok], 3.)):
                    rec.check(rel(a, b, sc, 1e-9 if k == 0 else 1e-11), key, what + " of many bins",
                              worst=np.max(np.abs(a - b)) if a.shape == b.shape else a.shape)
                rec.outcome(g[-1:])


def run_grid23(sh, rec, M):
    two = [(300, 200), (200, 300), (256, 256), (400, 3), (3, 400), (1, 513), (513, 1), (129, 65)]
    three = [(50, 40, 30), (33, 33, 33), (3, 4, 300), (300, 2, 3), (2, 300, 3), (65, 2, 40)]
    cases = [(a, b) for a in two for b in two] + [(a, b) for a in three for b in three]
    # more source cells under one target cell than a short integer can count
    cases += [((300, 280), (1, 1)), ((45, 41, 40), (1, 1, 1)), ((41, 70, 60), (2, 1, 1)), ((2, 200, 180), (1, 1, 2)),
              ((1, 1), (300, 280)), ((1, 1, 1), (45, 41, 40))]
    for q, (n, m) in enumerate(cases):
        if q % 4 != sh["k"]:
            continue
        dim = len(n)
        L, o = [2.3, 1.1, 1.7][:dim], [0.3, -0.2, 0.][:dim]
        Lo, oo = [1.9, 1.3, 1.6][:dim], [0.11, -0.3, 0.1][:dim]
        W = [fractions(np.linspace(o[a], o[a] + L[a], n[a] + 1),
                       np.linspace(oo[a], oo[a] + Lo[a], m[a] + 1))/(Lo[a]/m[a]) for a in range(dim)]
        for k in (0, 1):
            key = {"cells": n, "to": m, "values": k}
            with rec.case(key):
                f = field(int(np.prod(n)), k).reshape(n)
                fn = M.remap.grid2grid2D if dim == 2 else M.remap.grid2grid3D
                g = rec.call(fn, f, L, list(m), origin=o, originout=oo, boxsizeout=Lo)
                w = f
                for a in range(dim):
                    w = np.moveaxis(np.tensordot(W[a], w, axes=(1, a)), 0, a)
                rec.check(g.shape == w.shape and rel(g, w, np.abs(f).max(), 1e-11), key, "remap of a large grid")
                rec.outcome(g.ravel()[-1:])


def run_grids(sh, rec, M):
    G, U = M.grids, M.utils
    top = 1000001 if sh["t"] == "quick" else 10000001
    run_blocks(sh, rec, M)
    for n in list(CELLS[sh["t"]]) + [4096, 10000, 65536, 99999, 100000, top]:
        key = {"cells": n}
        with rec.case(key):
            e = rec.call(G.get_xedges, 2.3, n, xmin=0.2)
            w = 0.2 + 2.3*np.arange(n + 1)/n
            rec.check(e.shape == w.shape and rel(e, w, 2.5, 1e-14), key, "edges")
            m = rec.call(G.xedges2mid, e)
            rec.check(m.shape == (n,) and rel(m, 0.5*(w[1:] + w[:-1]), 2.5, 1e-14), key, "middles")
            x, ed = rec.call(G.grid1d, 2.3, n, xmin=0.2, return_edges=True)
            rec.check(rel(x, m, 2.5, 1e-14) and rel(ed, e, 2.5, 1e-14), key, "grid1d")
            if n <= 2049:
                for a in (1, 2, 5):
                    x2, y2 = rec.call(G.grid2d, [2.3, 1.], [n, a], mins=[0.2, 0.])
                    rec.check(x2.shape == (n, a) and rel(x2, m[:, None], 2.5) and
                              rel(y2, ((np.arange(a) + 0.5)/a)[None], 1.), key, "grid2d")
                    x2, y2 = rec.call(G.grid2d, [1., 2.3], [a, n], mins=[0., 0.2])
                    rec.check(x2.shape == (a, n) and rel(y2, m[None], 2.5), key, "grid2d")
                    r2, p2 = rec.call(G.polargrid, n, a, rmin=0.2, rmax=2.5)
                    rec.check(r2.shape == (n, a) and rel(r2, m[:, None], 2.5), key, "polargrid")
                    for ax in range(3):
                        s, ln, mn = [a, 2, 2], [1., 1., 1.], [0., 0., 0.]
                        s[ax], ln[ax], mn[ax] = n, 2.3, 0.2
                        g = rec.call(G.grid3d, ln, s, mins=mn)
                        w3 = m.reshape([n if d == ax else 1 for d in range(3)])
                        rec.check(g[ax].shape == tuple(s) and rel(g[ax], w3, 2.5), key, "grid3d")
            rec.outcome(e[-2:])
        with rec.case({"cells": n, "monotonic": 1}):
            if n <= 100000:
                rec.check(bool(rec.call(U.is_pos_monotonic, e)), key, "rising edges")
                for at in sorted({0, 1, n//3, n//2, n - 2, n - 1}):
                    if 0 <= at < n:
                        v = e.copy()
                        v[at + 1] = v[at] - 1e-3
                        if at + 2 <= n:
                            v[at + 2:] += 10.
                        rec.check(not rec.call(U.is_pos_monotonic, v), dict(key, falls=at), "one step falls")
        if n <= 1025:
            with rec.case({"rings": n}):
                if n <= 257:
                    r, p = rec.call(G.polarEA_grid, n, rmax=1.3)
                    ring = np.repeat(np.arange(n), 4*(2*np.arange(n) + 1))
                    first = 4*ring**2
                    rec.check(len(r) == 4*n*n and rel(r, (ring + 0.5)*1.3/n, 1.3), {"rings": n}, "equal area radii")
                    rec.check(len(p) == 4*n*n and rel(p, (np.arange(4*n*n) - first + 0.5)*TWO/(4*(2*ring + 1)), TWO),
                              {"rings": n}, "equal area angles")
                rec.check(rec.call(G.polarEA_npix, n) == 4*n*n, {"rings": n}, "number of pixels")
                a = rec.call(G.polarEA_area, n, rmax=1.3)
                rec.check(abs(a*4*n*n/(PI*1.69) - 1.) < 1e-12, {"rings": n}, "area of the pixels")
        if n <= 2049:
            with rec.case({"radial": n}):
                P, k = M.polar, {"radial": n}
                re = np.linspace(0.1, 2., n + 1)
                f, s = field(n, 1), 1. + np.arange(n) % 3
                c, d = rec.call(P.cumulative_radial, re, f, sigma=s)
                ar = PI*(re[1:]**2 - re[:-1]**2)
                rec.check(rel(c, np.concatenate([[0.], np.cumsum(ar*f)]), c[-1], 1e-11), k, "cumulative")
                rec.check(rel(d, np.sqrt(np.concatenate([[0.], np.cumsum((ar*s)**2)])), d[-1], 1e-11), k,
                          "cumulative errors")
                x, cd, nf = rec.call(M.randoms.pdf2cdf, (np.arange(n) + 0.5)/n, field(n, 0)) if n > 1 else (None,)*3
                if n > 1:
                    cw = np.concatenate([[0.], np.cumsum(field(n, 0))])
                    rec.check(rel(cd, cw/cw[-1], 1., 1e-11) and rel(x, np.arange(n + 1)/n, 1., 1e-11) and
                              rel(nf, field(n, 0)/(cw[-1]/n), nf.max(), 1e-11), k, "cumulative distribution")
                for shape in ((2, n), (n, 2)):
                    pe = np.linspace(0., 2., shape[0] + 1)
                    rr = np.linspace(0.1, 2., shape[1] + 1)
                    ar = rec.call(P.get_polar_area2d, rr, pe)
                    aw = 0.5*(rr[1:]**2 - rr[:-1]**2)[None]*np.full((shape[0], 1), 2./shape[0])
                    rec.check(ar.shape == shape and rel(ar, aw, aw.max(), 1e-12), k, "areas")
                    f, s, w = (field(2*n, q).reshape(shape) for q in (1, 0, 0))
                    v, e2 = rec.call(P.polar2radial, f, aw, 1e-3, sigma=s, w=w)
                    rec.check(rel(v, (w*f).sum(axis=0)/w.sum(axis=0), 2e9, 1e-12) and
                              rel(e2, np.sqrt(((1e-3/aw)*(w*s)**2).sum(axis=0))/w.sum(axis=0), e2.max(), 1e-10),
                              k, "radial profile")
        for h in (list, ):
            if n <= 5000 and n > 1:
                with rec.case({"sample": n}):
                    k, a = {"sample": n}, np.arange(n)
                    v = rec.call(M.randoms.shuffle, a)
                    rec.check(sorted(v) == list(a), k, "a shuffle keeps the sample")
                    for z in sorted({0, 1, n//2, n - 1}):
                        v = rec.call(M.randoms.random_draw, a, z)
                        rec.check(len(v) == z and len(set(v.tolist())) == z, k, "draws without repetition")
                        v = rec.call(M.randoms.random_prob_draw, a, np.full(n, 0.4), size=z)
                        rec.check(len(v) == z and len(set(v.tolist())) == z, k, "weighted draws without repetition")
                    v = rec.call(M.randoms.random_prob_draw, a, (a % 2).astype(float))
                    rec.check(sorted(v) == list(a[1::2]), k, "certain and impossible draws")
                    wt = a % 5*0.25 + a//5
                    for u in (0.1, 0.3, 0.6, 0.9):
                        v = rec.call(lambda: rng.constant(lambda: M.randoms.stochastic_integer_weights(wt), u))
                        fr = wt - np.floor(wt)
                        rec.check(np.array_equal(v, np.where(fr == 0., wt, np.floor(wt) + (u >= 1. - fr))), k,
                                  "integer weights")
                        v = rec.call(lambda: rng.constant(lambda: M.randoms.stochastic_binary_weights(wt), u))
                        rec.check(np.array_equal(v, np.minimum(1., np.where(fr == 0., wt, np.floor(wt) +
                                                                           (u >= 1. - fr)))), k, "binary weights")


def run_blocks(sh, rec, M):
    """Large samples drawn with a few streams of the random source: every 16th of the sample is treated like the others
    (a bound of 12 standard deviations of the number that a fair draw puts there)."""
    R, B = M.randoms, 16
    sizes = (4097, 16385, 65535, 65537, 70001, 131073, 200003) + ((1000003,) if sh["t"] != "quick" else ())

    def fair(count, p, n, key, what):
        rec.check(bool(np.all(np.abs(count - n*p) <= 12.*np.sqrt(n*p*(1. - p)) + 1.)), key, what, got=count.ravel()[:20],
                  want=n*p)

    for n in sizes:
        a = np.arange(n)
        blk = a*B//n
        for seed in (1, 2) if sh["t"] == "quick" else range(1, 9):
            key = {"sample": n, "stream": seed}
            with rec.case(key):
                np.random.seed(seed)
                v = rec.call(R.shuffle, a)
                if rec.check(np.array_equal(np.sort(v), a), key, "a shuffle keeps the sample"):
                    fair(np.bincount(blk[v]*B + blk, minlength=B*B), 1./B**2, n, key, "where the parts of a sample go")
                    fair(np.array([np.sum(v[1:] > v[:-1])]), 0.5, n, key, "steps up in a shuffle")
                for z in (n//2, n//7):
                    v = rec.call(R.random_draw, a, z)
                    if rec.check(len(v) == z and len(np.unique(v)) == z, key, "draws without repetition"):
                        fair(np.bincount(blk[v], minlength=B), 1./B, z, key, "parts of the sample drawn")
                    v = rec.call(R.random_prob_draw, a, np.full(n, 0.4), size=z)
                    if rec.check(len(v) == z and len(np.unique(v)) == z, key, "weighted draws without repetition"):
                        fair(np.bincount(blk[v]*B + np.arange(z)*B//z, minlength=B*B), 1./B**2, z, key,
                             "parts of the sample drawn by weight and where they go")
                v = rec.call(R.random_prob_draw, a, np.full(n, 0.4))
                if rec.check(len(np.unique(v)) == len(v), key, "draws by chance"):
                    fair(np.bincount(blk[v], minlength=B)*1., 0.4, n/B, key, "parts of the sample drawn by chance")
                    fair(np.bincount(blk[v]*B + np.arange(len(v))*B//len(v), minlength=B*B), 1./B**2, len(v), key,
                         "parts of the sample drawn by chance and where they go")
                for fn in (R.stochastic_integer_weights, R.stochastic_binary_weights):
                    v = rec.call(fn, np.full(n, 0.3))
                    fair(np.bincount(blk, weights=v, minlength=B), 0.3, n/B, key, "weights rounded up")
                rec.outcome(n)


def run_maps(sh, rec, M):
    """Target cells together and alone, few and many sub-cells or random points."""
    D, MC = M.densegrid, M.montecarlo
    u = 0.37
    k = sh["k"]

    def weights(o, n, at=u):
        rng.constant(lambda: o.get_weights(mc_size=n, verbose=False), at)

    shapes = [(3, 200), (200, 3), (1, 600), (600, 1), (33, 64), (129, 9)]
    if sh["t"] == "thorough":
        shapes += [(2000, 1), (1, 2000), (100, 100), (257, 3), (3, 257), (65, 65)]

    def together(name, make, f, shape, picks, sizes=((3, 2),), tol=1e-9):
        """make(rows slice, cols slice, size): remapped cells."""
        for size in sizes:
            key = {"remap": name, "cells": shape, "size": size}
            with rec.case(key):
                g = np.asarray(rec.call(make, (0, shape[0]), (0, shape[1]), size), float)
                if not rec.check(g.shape == shape, key, "shape", got=g.shape):
                    continue
                rec.outcome(g.ravel()[-4:])
                for a, b in picks:
                    v = np.asarray(rec.call(make, a, b, size), float)
                    w = g[a[0]:a[1], b[0]:b[1]]
                    ok = v.shape == w.shape and bool(np.all(same(v, w, tol)))
                    rec.check(ok, dict(key, rows=a, columns=b), "cells depend on how many others there are",
                              got=v.ravel()[:3], want=w.ravel()[:3])

    def picks(shape):
        rows = sorted({0, 1, shape[0]//2, shape[0] - 1} & set(range(shape[0])))
        cols = sorted({0, 1, shape[1]//3, shape[1] - 1} & set(range(shape[1])))
        return [((i, i + 1), (j, j + 1)) for i in rows for j in cols] + \
               [p for p in [((0, min(5, shape[0])), (0, min(4, shape[1]))),
                (((shape[0] + 1)//2, shape[0]), (shape[1]//2, shape[1]))] if p[0][0] < p[0][1]]

    F = field(60*50, 0).reshape(50, 60)
    H = field(12*64*64, 0)
    if k in (0, 1):
        for shape in shapes[k::2]:
            re, pe = np.linspace(0.13, 1.57, shape[1] + 1), np.linspace(0.21, 5.93, shape[0] + 1)

            def make(a, b, size, mod=D):
                o = mod.Box2Ring()
                o.setup_box(-1.03, 1.4, 60, -0.9, 1.21, 50)
                args = (re[b[0]], re[b[1]], b[1] - b[0], a[1] - a[0])
                kw = dict(pmin=pe[a[0]], pmax=pe[a[1]], center=[0.13, -0.07], phi_shift=0.37)
                if mod is D:
                    o.setup_polar(*args, rebin_r=size[0], rebin_p=size[1], **kw)
                else:
                    o.setup_polar_lin(*args, **kw)
                    weights(o, size)
                return o.remap(F, verbose=False)
            # with equal weights of the rings inside a cell the cell alone must give the same
            together("dense Box2Ring", make, F, shape, picks(shape))
            together("mc Box2Ring", lambda a, b, s: make(a, b, s, MC), F, shape, picks(shape), sizes=(2, 17))
    if k in (2, 3):
        for shape in shapes[k - 2::2]:
            ae, be = np.linspace(0.13, 1.17, shape[1] + 1), np.linspace(0.21, 5.93, shape[0] + 1)

            def make(a, b, size, mod=D):
                o = mod.Heal2Ring()
                o.setup_map(64)
                args = (ae[b[0]], ae[b[1]], b[1] - b[0], a[1] - a[0])
                kw = dict(beta_min=be[a[0]], beta_max=be[a[1]], center=[1.13, 0.87], beta_shift=0.37)
                if mod is D:
                    o.setup_polar_cap(*args, rebin_alpha=size[0], rebin_beta=size[1], **kw)
                else:
                    o.setup_polar_cap(*args, **kw)
                    weights(o, size)
                return o.remap(H, verbose=False)
            together("dense Heal2Ring", make, H, shape, picks(shape))
            together("mc Heal2Ring", lambda a, b, s: make(a, b, s, MC), H, shape, picks(shape), sizes=(2, 17))
    if k in (4, 5):
        for shape in shapes[k - 4::2]:
            for which in ("dense Heal2Polar", "mc Heal2Polar", "dense Heal2Ortho"):
                def make(which=which, shape=shape):
                    o = getattr(MC if which[0] == "m" else D, which.split()[1])()
                    o.setup_map(64)
                    kw = dict(center=[1.13, 0.87], y_length=0.53, y_grid=shape[0])
                    if which[0] == "m":
                        o.setup_box(0.71, shape[1], **kw)
                        weights(o, 2, 0.5)
                    else:
                        o.setup_box(0.71, shape[1], rebin_x=1, rebin_y=1, **kw)
                    return o.remap(H, verbose=False)
                key = {"remap": which, "cells": shape}
                with rec.case(key):
                    g = rec.call(make)
                    w, sure = looked_up(which, H, shape)
                    if rec.check(g.shape == w.shape, key, "shape", got=g.shape):
                        bad = ~same(g, w, 1e-9) & sure
                        rec.check(not np.any(bad), key, "cells of a large grid", number=int(bad.sum()),
                                  at=np.argwhere(bad)[:3])
                        rec.count("judged cells", int(sure.sum()))
                    rec.outcome(g.ravel()[-3:])
    if k in (6, 7):
        for num, ns in (((40, 2), (3, 8), (150, 1)) if k == 6 else ((1, 4), (12, 2), (64, 1))):
            for log in (False, True) if k == 7 else (False,):
                re = np.linspace(0.21, 1.583, num + 1) if not log else np.logspace(np.log10(.21), np.log10(1.583), num + 1)

                def make(b, size):
                    o = (D if k == 6 else MC).Cube2Shell()
                    o.setup_cube(-1.03, 1.4, 13, -0.9, 1.21, 14, -1.1, 0.93, 12)
                    a = (re[b[0]], re[b[1]], b[1] - b[0], ns)
                    kw = dict(center=[0.13, -0.07, 0.11])
                    if k == 6:
                        o.setup_polar(*a, rebin_r=size, rebin_shell=4, **kw)
                    elif log:
                        o.setup_polar_log(*a, addzero=False, **kw)
                    else:
                        o.setup_polar_lin(*a, **kw)
                    if k == 7:
                        weights(o, size)
                    return o.remap(field(13*14*12, 0).reshape(14, 13, 12), verbose=False)
                for size in (2, 5):
                    key = {"remap": "Cube2Shell", "mc": k == 7, "shells": num, "nside": ns, "size": size, "log": log}
                    with rec.case(key):
                        g = rec.call(make, (0, num), size)
                        rec.check(g.shape == (num, 12*ns*ns), key, "shape", got=g.shape)
                        for i in sorted({0, 1, num//3, num - 2, num - 1} & set(range(num))):
                            v = rec.call(make, (i, i + 1), size)
                            rec.check(bool(np.all(same(v[0], g[i], 1e-9))), dict(key, shell=i),
                                      "a shell depends on the number of shells")
    if k in (8, 9):
        # as many random points as wanted at one place
        sizes = (3, 10, 255, 256, 257, 1000, 1024, 4097, 10000, 65537, 200000)
        for n in sizes[k - 8::2]:
            for name, w in (("Box2Ring", 0), ("Box2Ring log", 1), ("Heal2Ring", 2), ("Heal2Polar", 3),
                            ("Cube2Shell", 4)):
                def make(n):
                    o = getattr(MC, name.split()[0])()
                    f = F
                    if w < 2:
                        o.setup_box(-1.03, 1.4, 60, -0.9, 1.21, 50)
                        (o.setup_polar_lin if w == 0 else o.setup_polar_log)(0.13, 1.57, 2, 2, center=[0.13, -0.07])
                    elif w < 4:
                        f = H
                        o.setup_map(64)
                        if w == 2:
                            o.setup_polar_cap(0.13, 1.17, 2, 2, center=[1.13, 0.87])
                        else:
                            o.setup_box(0.71, 2, center=[1.13, 0.87])
                    else:
                        f = field(13*14*12, 0).reshape(14, 13, 12)
                        o.setup_cube(-1.03, 1.4, 13, -0.9, 1.21, 14, -1.1, 0.93, 12)
                        o.setup_polar_lin(0.4, 0.9, 1, 1)
                    weights(o, n)
                    c = np.full(f.shape, 1e9 + 0.25)
                    d = 1e9 + np.round(f*64.)/4.
                    out = [np.asarray(o.remap(g, verbose=False)) for g in (f, c, d)]
                    out += [np.asarray(o.remap(g, w=1. + f, verbose=False)) for g in (f, c, d)]
                    return out
                if n > 20000 and w == 4:
                    continue
                key = {"remap": "mc " + name, "points": n}
                with rec.case(key):
                    a, b = rec.call(make, n), rec.call(make, 2)
                    for x, y in zip(a, b):
                        rec.check(bool(np.all(same(x, y, 1e-12))), key, "the same place with more points")
                    for q in (0, 3):
                        # one place: the field's own value, to the last digit
                        rec.check(bool(np.all(same(a[q + 1], 1e9 + 0.25 + 0.*a[q], 1e-13))), key,
                                  "a constant field", got=a[q + 1].ravel()[:3])
                        rec.check(bool(np.all(same(a[q + 2], 1e9 + np.round(a[q]*64.)/4., 1e-13))), key,
                                  "large values of one cell", got=a[q + 2].ravel()[:3])
                    rec.outcome(a[0].ravel())
    if k in (10, 11):
        # many sub-cells: a constant field stays constant, and large values keep their digits
        for a, b in ((1, 300), (300, 1), (64, 65), (128, 3), (33, 257))[k - 10::2]:
            for name in ("Box2Ring", "Heal2Ring", "Heal2Polar", "Heal2Ortho", "Cube2Shell"):
                key = {"remap": "dense " + name, "sub-cells": (a, b)}
                with rec.case(key):
                    o = getattr(D, name)()
                    if name == "Box2Ring":
                        o.setup_box(-2., 2.2, 60, -2., 2.2, 50)
                        o.setup_polar(0.2, 1.7, 3, 4, rebin_r=a, rebin_p=b)
                        shape = (50, 60)
                    elif name == "Cube2Shell":
                        o.setup_cube(-2., 2.2, 5, -2., 2.2, 6, -2., 2.2, 4)
                        o.setup_polar(0.2, 1.7, 2, 1, rebin_r=a, rebin_shell=2**int(np.log2(b)) if b < 70 else 64)
                        shape = (6, 5, 4)
                    else:
                        o.setup_map(32)
                        shape = (12*32*32,)
                        if name == "Heal2Ring":
                            o.setup_polar_cap(0.2, 1.3, 3, 4, center=[1., 0.8], rebin_alpha=a, rebin_beta=b)
                        else:
                            o.setup_box(1.1, 3, center=[1., 0.8], y_grid=2, rebin_x=a, rebin_y=b)
                    f = np.full(shape, 1e9 + 0.25)
                    g = rec.call(lambda: o.remap(f, verbose=False))
                    rec.check(bool(np.all(np.abs(g/f.ravel()[0] - 1.) < 1e-12)), key, "a constant field",
                              got=np.ravel(g)[:3])
                    if name != "Cube2Shell":
                        g = rec.call(lambda: o.remap(f, w=field(f.size, 0).reshape(shape), verbose=False))
                        rec.check(bool(np.all(np.abs(g/f.ravel()[0] - 1.) < 1e-12)), key,
                                  "a constant field with weights", got=np.ravel(g)[:3])
                    rec.outcome(g.ravel()[:2])


def looked_up(which, H, shape):
    """The map at the single point of each cell, and whether the point is well inside a pixel."""
    ny, nx = shape
    c0, c1 = 1.13, 0.87
    x = ((np.arange(nx) + 0.5)/nx - 0.5)*0.71
    ye = (np.arange(ny + 1)/ny - 0.5)*0.53
    y = 0.5*(ye[1:] + ye[:-1])
    if which[0] == "m":
        s = np.sin(ye)
        y = np.arcsin(0.5*(s[:-1] + s[1:]))
    X, Y = [g.ravel() for g in np.meshgrid(x, y)]
    if which == "dense Heal2Ortho":
        v = np.stack([X, Y, np.sqrt(1. - X*X - Y*Y)], axis=-1) @ (rot.Rz(c0) @ rot.Ry(c1) @ rot.Rz(-1.5*PI)).T
    else:
        v = rot.vec(X, PI/2 - Y) @ (rot.Rz(c0) @ rot.Ry(c1 - PI/2)).T
    c = rm.heal_candidates(hp, 64, v)
    sure = np.all([k == c[0] for k in c], axis=0)
    return H[c[0]].reshape(shape), sure.reshape(shape)
