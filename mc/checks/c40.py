"""C40: units and origin make no difference."""
import itertools

import numpy as np

from mc import rng

SRC = True
MAPS = True
UNSEEN = -1.6375e30
PI, TWO = np.pi, 2*np.pi
POW = (-300, -100, -40, -27, -10, -3, -1, 1, 4, 10, 24, 33, 60, 100, 300)
GEN = (1e-25, 1e-12, 1e-6, 0.3, 7., 1e3, 3.0857e22)
BOUNDS = {
    "quick": "33 scenes over every function and class that takes lengths or values; each at 15 powers of "
             "two (2^-300..2^300) and 7 general factors of the length unit, the same factors and their "
             "negatives for the values, 6 joint changes, and 8 translations of the origin; every result "
             "against the scene in its own units",
    "thorough": "every pair of 7 length and 7 value factors; 40 translations",
}
ASSUMPTIONS = ["powers of two change no rounding: results agree to 1e-12 of their scale; other factors to 1e-9",
               "scenes keep sub-cell and random points away from cell borders, so rounding moves none across",
               "squares and cubes of lengths stay within the range of doubles"]


def vals(shape, k=1):
    n = int(np.prod(shape))
    return (1.5 + np.cos(np.arange(n)*(1.7 + k)) + (np.arange(n)*(k + 4)) % 7).reshape(shape)


def unit(F):
    """A unit for the weights: squares of weight times error stay within the range of doubles."""
    return min(max(abs(F), 2.**-100), 2.**100)


class Scene:
    """fn(L, F, t): list of (result, power of length, power of value, moves with origin or None)."""

    def __init__(self, name, fn, dim=1, lmax=300, move=True):
        self.name, self.fn, self.dim, self.lmax, self.move = name, fn, dim, lmax, move


def scenes(M):
    out = []

    def add(name, dim=1, lmax=300, move=True):
        def deco(fn):
            out.append(Scene(name, fn, dim, lmax, move))
            return fn
        return deco
    R, G, C, P, D, MC, RD = M.remap, M.grids, M.coords, M.polar, M.densegrid, M.montecarlo, M.randoms

    @add("grid2grid1D")
    def _(L, F, t):
        f = vals(5)*F
        return [(R.grid2grid1D(f, 2.3*L, 7, origin=0.3*L + t[0], originout=0.11*L + t[0], boxsizeout=1.9*L), 0, 1),
                (R.grid2grid1D(f, 2.3*L, 3, origin=t[0], originout=t[0]), 0, 1)]

    @add("grid2grid2D", dim=2, lmax=150)
    def _(L, F, t):
        f = vals((3, 4))*F
        return [(R.grid2grid2D(f, [2.3*L, 1.7*L], [5, 2], origin=[0.3*L + t[0], t[1]],
                               originout=[0.1*L + t[0], t[1] - 0.2*L], boxsizeout=[2.*L, 1.6*L]), 0, 1)]

    @add("grid2grid3D", dim=3, lmax=100)
    def _(L, F, t):
        f = vals((3, 4, 2))*F
        return [(R.grid2grid3D(f, [2.3*L, 1.7*L, 3.*L], [2, 3, 3], origin=[0.3*L + t[0], t[1], t[2]],
                               originout=[0.1*L + t[0], t[1] - 0.2*L, 0.4*L + t[2]],
                               boxsizeout=[2.*L, 1.6*L, 2.9*L]), 0, 1)]

    @add("rebin_1d")
    def _(L, F, t):
        e = np.array([0., 0.5, 1.7, 2., 3.1, 3.3])*L + t[0]
        n = np.array([0.13, 0.4, 1.9, 2.2, 3.27, 4.])*L + t[0]
        d, s = vals(5)*F, vals(5, 3)*F
        w = vals(5, 2)
        a = M.one_d.rebin_1d(e, d, n, w=w, sigma=s)
        b = M.one_d.rebin_1d(e, d, n, sigma=s)
        c = M.one_d.rebin_1d_single_bin_weights(e, 0.6*L + t[0], 2.9*L + t[0])
        # the unit of the weights does not matter either
        v = M.one_d.rebin_1d(e, d, n, w=w*unit(F), sigma=s)
        return [(a[0], 0, 1), (np.abs(a[1]), 0, -1), (b[0], 0, 1), (np.abs(b[1]), 0, -1), (c[0], 0, 0), (c[1], 0, 0),
                (M.one_d.rebin_1d(e, d, n), 0, 1), (v[0], 0, 1), (v[1], 0, -1)]

    @add("grids")
    def _(L, F, t):
        e = G.get_xedges(2.3*L, 6, xmin=0.2*L + t[0])
        m = G.xedges2mid(e)
        x, ed = G.grid1d(2.3*L, 6, xmin=t[0], return_edges=True)
        e2 = G.xmid2edges(np.array([0.5, 1.5, 2.5, 3.5])*L + t[0])
        return [(e, 1, 0, 0), (m, 1, 0, 0), (x, 1, 0, 0), (ed, 1, 0, 0), (e2, 1, 0, 0),
                (G.grid1d(0.7*L, 3, xmin=0.1*L + t[0]), 1, 0, 0)]

    @add("grids 2D and 3D", dim=3)
    def _(L, F, t):
        a = G.grid2d([2.3*L, 1.1*L], [3, 4], mins=[0.3*L + t[0], t[1]])
        b = G.grid3d([2.3*L, 1.1*L, L], [3, 4, 2], mins=[0.3*L + t[0], t[1], t[2]])
        return [(x, 1, 0, i) for i, x in enumerate(a)] + [(x, 1, 0, i) for i, x in enumerate(b)]

    @add("polar grids", move=False, lmax=150)
    def _(L, F, t):
        a = G.polargrid(3, 4, rmin=0.2*L, rmax=1.3*L, phimax=2.)
        b = G.polarEA_grid(3, rmax=1.3*L)
        return [(a[0], 1, 0), (a[1], 0, 0), (b[0], 1, 0), (b[1], 0, 0), (G.polarEA_area(3, rmax=1.3*L), 2, 0)]

    @add("polar coordinates", dim=2, lmax=150)
    def _(L, F, t):
        x, y = (vals(9) - 3.3)*L, (vals(9, 2) - 2.9)*L
        c = [0.4*L + t[0], -0.7*L + t[1]]
        r, p = C.cart2polar(x + t[0], y + t[1], center=c)
        a, b = C.polar2cart(vals(9)*L, vals(9, 3), center=c)
        s = [np.array(C.cart2polar(float(u), float(v), center=c)) for u, v in zip(x + t[0], y + t[1])]
        s = np.array(s)
        return [(r, 1, 0), (p, 0, 0), (a, 1, 0, 0), (b, 1, 0, 1), (s[:, 0], 1, 0), (s[:, 1], 0, 0)]

    @add("spherical coordinates", dim=3, lmax=150)
    def _(L, F, t):
        q = [(vals(9, k) - 3.1)*L for k in (1, 2, 3)]
        c = [0.4*L + t[0], -0.7*L + t[1], 0.1*L + t[2]]
        r, p, th = C.cart2sphere(*[u + v for u, v in zip(q, t)], center=c)
        a = C.sphere2cart(vals(9)*L, vals(9, 3), vals(9, 2)*0.3, center=c)
        s = np.array([C.cart2sphere(*[float(u[i]) + v for u, v in zip(q, t)], center=c) for i in range(9)])
        return [(r, 1, 0), (p, 0, 0), (th, 0, 0), (a[0], 1, 0, 0), (a[1], 1, 0, 1), (a[2], 1, 0, 2),
                (s[:, 0], 1, 0), (s[:, 1], 0, 0), (s[:, 2], 0, 0)]

    @add("ortho2cart", move=False, lmax=150)
    def _(L, F, t):
        x, y = (vals(9) - 3.3)*L, (vals(9, 2) - 2.9)*L
        return [(C.ortho2cart(x, y, r=4.*L), 1, 0), (C.ortho2cart(x, y, r=4.*L, fill_value=F*0.5) *
                                                     (x*x + y*y > 16.*L*L), 0, 1)]

    @add("polar averages", move=False, lmax=140)
    def _(L, F, t):
        re, pe = np.array([0., 0.3, 1.1, 2.])*L, np.linspace(0., 2., 5)
        a = P.get_polar_area2d(re, pe)
        px = P.get_pixarea(np.arange(4)*0.3*L, np.arange(3)*0.7*L)
        f, s, w = vals((4, 3))*F, vals((4, 3), 2)*F, vals((4, 3), 3)
        u = P.polar2radial(f, a, px, sigma=s, w=w)
        v = P.polar2radial(f, a, px, sigma=s)
        z = P.polar2radial(f, a, px, sigma=s, w=w*unit(F))
        c = P.cumulative_radial(re, f[0], sigma=s[0])
        return [(a, 2, 0), (px, 2, 0), (u[0], 0, 1), (u[1], 0, -1), (v[0], 0, 1), (v[1], 0, -1),
                (c[0], 2, 1), (c[1], 2, -1), (P.polar2radial(f, a, px), 0, 1), (z[0], 0, 1), (z[1], 0, -1),
                (P.cumulative_radial(re, f[1]), 2, 1)]

    @add("rotate_polar_grid", move=False)
    def _(L, F, t):
        return [(C.rotate_polar_grid(np.linspace(0., TWO, 6), vals((5, 3))*F, s), 0, 1) for s in (0.3, 2.1, 5.)]

    U = [0.137, 0.871, 0.433, 0.629, 0.051, 0.951, 0.333, 0.718, 0.211, 0.547, 0.802, 0.089]

    def draw(fn):
        return rng.scripted(fn, U*4)[0]

    @add("randoms in boxes", dim=3)
    def _(L, F, t):
        a = draw(lambda: RD.randoms_1d(6, xmin=0.3*L + t[0], xmax=2.*L + t[0]))
        b = draw(lambda: RD.randoms_2d(5, mins=[0.3*L + t[0], t[1] - L], maxs=[2.*L + t[0], t[1] + L]))
        c = draw(lambda: RD.randoms_3d(4, mins=[0.3*L + t[0], t[1] - L, t[2]],
                                       maxs=[2.*L + t[0], t[1] + L, t[2] + 3.*L]))
        return [(a, 1, 0, 0)] + [(x, 1, 0, i) for i, x in enumerate(b)] + [(x, 1, 0, i) for i, x in enumerate(c)]

    @add("randoms in shells", move=False, lmax=100)
    def _(L, F, t):
        a = draw(lambda: RD.randoms_polar(6, r_min=0.3*L, r_max=2.*L))
        b = draw(lambda: RD.randoms_sphere_r(6, r_min=0.3*L, r_max=2.*L))
        c = draw(lambda: RD.randoms_sphere(6, r_min=0.3*L, r_max=2.*L))
        return [(a[0], 1, 0), (a[1], 0, 0), (b, 1, 0), (c[0], 1, 0), (c[1], 0, 0), (c[2], 0, 0)]

    @add("randoms from densities")
    def _(L, F, t):
        xm = np.arange(0.5, 6.)*L + t[0]
        pdf = vals(6)*abs(F)
        x, c, n = RD.pdf2cdf(xm, pdf)
        out = [(x, 1, 0, 0), (c, 0, 0), (n, -1, 0)]
        for kind in ("linear", "nearest", "previous"):
            out.append((draw(lambda: RD.randoms_pdf(xm, pdf, 8, kind=kind)), 1, 0, 0))
        for kind in ("cubic", "quadratic"):
            out.append((draw(lambda: RD.randoms_pdf(xm, pdf, 8, kind=kind)), 1, 0, 0))
        return out

    @add("integer weights", move=False)
    def _(L, F, t):
        items = vals(9)*F
        return [(draw(lambda: RD.random_prob_draw(items, np.full(9, 0.5))), 0, 1)]

    for mod, nm in ((D, "dense"), (MC, "mc")):
        for log in ((False,) if nm == "dense" else (False, True, "zero")):
            @add("%s Box2Ring%s" % (nm, " log %s" % log if log else ""), dim=2, lmax=120)
            def _(L, F, t, mod=mod, nm=nm, log=log):
                o = mod.Box2Ring()
                o.setup_box(-1.03*L + t[0], 1.4*L + t[0], 5, -0.9*L + t[1], 1.21*L + t[1], 4)
                a = (0.21*L, 1.57*L, 3, 4)
                k = {"center": [0.13*L + t[0], -0.07*L + t[1]], "phi_shift": 0.37}
                if nm == "dense":
                    o.setup_polar(*a, rebin_r=3, rebin_p=2, **k)
                elif not log:
                    o.setup_polar_lin(*a, **k)
                else:
                    o.setup_polar_log(*a, addzero=log == "zero", **k)
                if nm == "mc":
                    rng.scripted(lambda: o.get_weights(mc_size=12, verbose=False), U*40)
                f, w = vals((4, 5))*F, vals((4, 5), 2)
                g, s = vals((4, 3))*F, vals((4, 3), 3)*F
                q = o.polar2radial(g, sigma=s)
                q2 = o.polar2radial(g, sigma=s, w=vals((4, 3), 5))
                q3 = o.polar2radial(g, sigma=s, w=vals((4, 3), 5)*unit(F))
                o.get_mask_in_bound(verbose=False)
                return [(o.x2d, 1, 0, 0), (o.y2d, 1, 0, 1), (o.r2d, 1, 0), (o.p2d, 0, 0),
                        (o.remap(f, verbose=False), 0, 1), (o.remap(f, w=w, verbose=False), 0, 1),
                        (o.remap(f, w=w*unit(F), verbose=False), 0, 1), (o.mask_in_bound, 0, 0),
                        (q[0], 0, 1), (q[1], 0, -1), (q2[0], 0, 1), (q2[1], 0, -1), (q3[0], 0, 1), (q3[1], 0, -1),
                        (o.rotate_polar(g, 1.1), 0, 1)]
        for log in ((False,) if nm == "dense" else (False, True, "zero")):
            @add("%s Cube2Shell%s" % (nm, " log %s" % log if log else ""), dim=3, lmax=90)
            def _(L, F, t, mod=mod, nm=nm, log=log):
                o = mod.Cube2Shell()
                o.setup_cube(-1.03*L + t[0], 1.4*L + t[0], 3, -0.9*L + t[1], 1.21*L + t[1], 4,
                             -1.1*L + t[2], 0.93*L + t[2], 2)
                a = (0.21*L, 1.583*L, 2, 2)
                k = {"center": [0.13*L + t[0], -0.07*L + t[1], 0.11*L + t[2]]}
                if nm == "dense":
                    o.setup_polar(*a, rebin_r=3, periodicx=[-1, 1], **k)
                elif not log:
                    o.setup_polar_lin(*a, **k)
                else:
                    o.setup_polar_log(*a, addzero=log == "zero", **k)
                if nm == "mc":
                    rng.scripted(lambda: o.get_weights(mc_size=8, verbose=False), U*300)
                f = vals((4, 3, 2))*F
                out = [(o.x3d, 1, 0, 0), (o.y3d, 1, 0, 1), (o.z3d, 1, 0, 2), (o.rmid, 1, 0), (o.redges, 1, 0)]
                r = o.remap(f, verbose=False)
                if nm == "mc":
                    w = vals((4, 3, 2), 2)
                    q = [o.remap(f, w=v, verbose=False) for v in (w, w*unit(F))]
                    # cells without points keep the unseen mark in every unit
                    out += [(np.where(x == UNSEEN, np.nan, x), 0, 1) for x in [np.array(v) for v in [r] + q]]
                else:
                    out += [(r, 0, 1)]
                return out

        @add("%s Heal2Ring" % nm, move=False)
        def _(L, F, t, mod=mod, nm=nm):
            o = mod.Heal2Ring()
            o.setup_map(4)
            o.setup_polar_cap(0.2, 1.3, 2, 3, center=[1., 0.8], beta_shift=0.3)
            if nm == "mc":
                rng.scripted(lambda: o.get_weights(mc_size=12, verbose=False), U*40)
            f, w, g, s = vals(192)*F, vals(192, 2), vals((3, 2))*F, vals((3, 2), 3)*F
            q = o.polar2radial(g, sigma=s)
            q2 = o.polar2radial(g, sigma=s, w=vals((3, 2), 5)*unit(F))
            return [(o.remap(f, verbose=False), 0, 1), (o.remap(f, w=w, verbose=False), 0, 1),
                    (o.remap(f, w=w*unit(F), verbose=False), 0, 1), (q[0], 0, 1), (q[1], 0, -1), (q2[0], 0, 1),
                    (q2[1], 0, -1), (o.rotate_polar(g, 1.1), 0, 1)]

        @add("%s Heal2Polar" % nm, move=False)
        def _(L, F, t, mod=mod, nm=nm):
            o = mod.Heal2Polar()
            o.setup_map(4)
            o.setup_box(0.9, 3, center=[1., 0.8], alpha=0.3, y_length=0.7, y_grid=2)
            if nm == "mc":
                rng.scripted(lambda: o.get_weights(mc_size=12, verbose=False), U*40)
            f, w = vals(192)*F, vals(192, 2)
            return [(o.remap(f, verbose=False), 0, 1), (o.remap(f, w=w, verbose=False), 0, 1),
                    (o.remap(f, w=w*unit(F), verbose=False), 0, 1)]

    @add("dense Heal2Ortho", move=False, lmax=140)
    def _(L, F, t):
        o = D.Heal2Ortho()
        o.setup_map(4)
        o.setup_box(2.21*L, 5, center=[1., 0.8], y_length=1.7*L, y_grid=4, radius=1.13*L)
        f, w = vals(192)*F, vals(192, 2)
        x, y = o.transform(np.array([0.3, 0.9, 2., 5.]), np.array([0.4, 1., 1.2, 2.]))
        return [(o.x2d, 1, 0), (o.y2d, 1, 0), (o.remap(f, verbose=False), 0, 1),
                (o.remap(f, w=w, verbose=False), 0, 1), (o.remap(f, w=w*unit(F), verbose=False), 0, 1),
                (x, 1, 0), (y, 1, 0)]

    @add("PointOfView", dim=3, lmax=120)
    def _(L, F, t):
        o = D.PointOfView()
        t = np.asarray(t)
        o.setup(list(np.array([0.3, -0.2, 0.7])*L + t), list(np.array([1.3, 0.8, 0.2])*L + t), 0.5*abs(F), spin=0.4)
        q = [(vals(9, k) - 2.2)*L for k in (1, 2, 3)]
        bx, by, ds = o.transform(*[u + v for u, v in zip(q, t)])
        b = o.reverse((vals(9) - 2.)*abs(F), (vals(9, 2) - 3.)*abs(F), vals(9)*L)
        return [(bx, 0, -1), (by, 0, -1), (ds, 1, 0)] + [(x, 1, 0, i) for i, x in enumerate(b)]

    @add("outlines", dim=3)
    def _(L, F, t):
        s = M.pixel.get_square(0.1*L + t[0], 2.*L + t[0], -L + t[1], 0.7*L + t[1], steps=12)
        a = M.pixel.get_arc(1.3*L, 0.2, 2., center=[0.3*L + t[0], -0.2*L + t[1]])
        d = M.pixel.get_disc(0.3*L, 1.1*L, 0.2, 2., center=[0.3*L + t[0], -0.2*L + t[1]], steps=16)
        b = M.pixel.get_box(0.1*L + t[0], 2.*L + t[0], -L + t[1], 0.7*L + t[1], 0.2*L + t[2], 0.9*L + t[2], steps=24)
        out = []
        for q in (s, a, d, b):
            out += [(x, 1, 0, i) for i, x in enumerate(q)]
        return out

    @add("nearest outlines", dim=3, lmax=120)
    def _(L, F, t):
        out = []
        for cen in ((5., 4., 3.), (-5., 0.3, 0.5), (0.3, 0.2, 9.)):
            b = M.pixel.get_box(0.1*L + t[0], 2.*L + t[0], -L + t[1], 0.7*L + t[1], 0.2*L + t[2], 0.9*L + t[2],
                                steps=24, return_nearest=True, center=[c*L + v for c, v in zip(cen, t)])
            out += [(x, 1, 0, i) for i, x in enumerate(b)]
        return out

    @add("monotonic", move=True)
    def _(L, F, t):
        return [(np.array([float(M.utils.is_pos_monotonic(np.array(a)*L + t[0])) for a in
                           ((0., 1., 2.), (0., 2., 1.), (0., 1., 1.), (1., 0.5), (0., 1., 1.0009765625))]), 0, 0)]
    return out


def shards(tier):
    n = 40
    return [{"scene": i, "t": tier} for i in range(n)]


def changes(tier, sc):
    pw = [2.**k for k in POW if abs(k) <= sc.lmax]
    vp = [2.**k for k in POW]
    out = [(a, 1., True) for a in pw] + [(1., b, True) for b in vp] + [(1., -b, True) for b in vp + [1.]]
    out += [(a, 1., False) for a in GEN] + [(1., s*b, False) for b in GEN for s in (1, -1)]
    joint = [(2.**-20, 2.**40), (2.**33, 2.**-27), (1e-6, 1e12), (3.0857e22, -1e-25), (1e3, 7.), (0.3, 1e-12)]
    if tier == "thorough":
        joint += list(itertools.product(GEN, GEN))
    return out + [(a, b, False) for a, b in joint]


MOVES = [(2., -1., 0.5), (-2., 4., 8.), (1024., 0., 0.), (0., 1024., -2048.), (-0.75, 100.5, 3.25),
         (4096., -4096., 4096.), (1e3, -0.3, 17.), (0.1, 0.2, 0.3)]


def compare(rec, key, got, ref, L, F, exact, t=None, rel=None):
    if not rec.check(len(got) == len(ref), key, "number of results"):
        return
    for i, (g, r) in enumerate(zip(got, ref)):
        a, b = np.asarray(g[0], float), np.asarray(r[0], float)
        rec.outcome(a)
        if not rec.check(a.shape == b.shape, key, "shape of result %d" % i, got=a.shape, want=b.shape):
            continue
        if a.size == 0:
            continue
        f = abs(F) if r[2] == -1 else F**r[2]
        want = b*L**r[1]*f
        if t is not None and len(r) > 3:
            want = want + t[r[3]]
        fin = np.isfinite(want)
        scale = np.max(np.abs(want[fin])) if np.any(fin) else 0.
        tol = rel if rel is not None else (1e-12 if exact else 1e-9)
        with np.errstate(invalid="ignore"):
            ok = (np.isnan(a) == np.isnan(want)) & ((np.abs(a - want) <= tol*scale) | ~fin)
        rec.check(bool(np.all(ok)), key, "result %d depends on the unit" % i if t is None else
                  "result %d depends on the origin" % i, got=a[~ok][:3], want=want[~ok][:3])


def run(sh, rec, M):
    sc = scenes(M)
    if sh["scene"] == 0:
        rec.check(len(sc) <= 40, {"scenes": len(sc)}, "every scene has a shard")
    if sh["scene"] >= len(sc):
        return
    s = sc[sh["scene"]]
    zero = (0., 0., 0.)
    with np.errstate(all="ignore"):
        with rec.case({"scene": s.name}):
            ref = [tuple([np.array(r[0], float)]) + tuple(r[1:]) for r in rec.call(s.fn, 1., 1., zero)]
            rec.count("results", len(ref))
        for L, F, exact in changes(sh["t"], s):
            key = {"scene": s.name, "length": L, "value": F}
            with rec.case(key):
                compare(rec, key, rec.call(s.fn, L, F, zero), ref, L, F, exact)
        if s.move:
            mv = list(MOVES)
            if sh["t"] == "thorough":
                mv += [tuple(np.array(m)*k + j) for m in MOVES[:4] for k, j in
                       ((1., 1.), (-1., 0.), (0.5, 3.), (3., -7.), (-0.25, 0.), (2., 0.3), (1., 11.), (0.7, -0.9))]
            for t in mv:
                key = {"scene": s.name, "moved": t}
                with rec.case(key):
                    compare(rec, key, rec.call(s.fn, 1., 1., t), ref, 1., 1., False, t=t,
                            rel=1e-9)
