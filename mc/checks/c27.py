"""C27: HEALPix map to a longitude-latitude patch, dense and Monte Carlo."""
import itertools

import numpy as np

from mc import heal_space as hs
from mc import rng, rot
from mc.core import close

SRC = False
MAPS = True
PI, TWO = np.pi, 2*np.pi
CENTERS = [None, (0., PI/2), (1., 0.7), (4.1, 2.), (0., 0.), (6.2, 3.), (2., PI), (TWO, 1.), (1.3, 0.), (0., PI)]
# x_length, x_grid, y_length, y_grid (None: left out)
PATCH = [(0.6, 3, None, None), (1.2, 2, 0.5, 3), (4., 2, None, None), (TWO, 4, PI, 2),
         (0.5, 1, 2.5, 2), (1., 3, 1., 1), (2., 2, None, 3)]
ALPHA = [None, 0.7, 3.5, 6.]
BOUNDS = {
    "quick": "10 centres (poles, equator, seam) x 7 patches x 4 spins x nside 1, 2, 3, 8; dense: 5 "
             "sub-divisions (unequal ones and the default); Monte Carlo: all 7x7 combinations of "
             "equally likely answers per cell; every basis map that can contribute (and two "
             "that cannot), a dense map, 4 weight maps; 80 widths without a height",
    "thorough": "as quick with nside 16, 5 and 15x15 answers and sub-divisions up to 9",
}
ASSUMPTIONS = ["two uniform doubles per Monte Carlo point, all of one cell drawn before the next",
               "points within 1e-7 of a pixel border may count on either side"]


def shards(tier):
    t = tier == "thorough"
    out = []
    for kind in ("dense", "mc"):
        for ns in (1, 2, 3, 8) + ((16, 5) if t else ()):
            for c in range(len(CENTERS)):
                out.append({"kind": kind, "nside": ns, "cen": c, "t": tier})
    out.sort(key=lambda s: -s["nside"])
    return out


def run(sh, rec, M):
    ns, cen, t = sh["nside"], CENTERS[sh["cen"]], sh["t"] == "thorough"
    npix = 12*ns*ns
    c0, c1 = cen or (0., 0.)
    dense = sh["kind"] == "dense"
    rebs = [None, (1, 1), (2, 3), (3, 1), (1, 4)] + ([(9, 5)] if t else [])
    K = 15 if t else 7
    if cen is None and ns == 1:
        # a patch of any width is as high as it is wide, up to half a turn
        for q in range(1, 81):
            xl = TWO*q/80
            key = {"kind": sh["kind"], "width": xl}
            with rec.case(key):
                o = (M.densegrid if dense else M.montecarlo).Heal2Polar()
                o.setup_map(1)
                rec.call(o.setup_box, xl, 2)
                yl = min(xl, PI)
                rec.check(close(o.xmid, [-xl/4, xl/4]) and close(o.ymid, [-yl/4, yl/4]), key,
                          "extent of the patch", got=[o.xmid, o.ymid])
    for patch in PATCH:
        xl, nx, yl, ny = patch
        yl_, ny_ = (min(xl, PI) if yl is None else yl), (nx if ny is None else ny)
        xe = -xl/2 + xl*np.arange(nx + 1)/nx
        ye = -yl_/2 + yl_*np.arange(ny_ + 1)/ny_
        for alpha in ALPHA:
            R = rot.Rz(c0) @ rot.Ry(c1 - PI/2) @ rot.Rx(alpha or 0.)
            kw = {}
            if cen is not None:
                kw["center"] = [list, tuple, np.array][sh["cen"] % 3](cen)
            if alpha is not None:
                kw["alpha"] = alpha
            if yl is not None:
                kw["y_length"] = yl
            if ny is not None:
                kw["y_grid"] = ny
            for rb in (rebs if dense else [None]):
                key = {"kind": sh["kind"], "nside": ns, "center": cen, "patch": patch,
                       "alpha": alpha, "rebin": rb}
                k2 = dict(kw)
                if rb is not None:
                    k2.update(rebin_x=rb[0], rebin_y=rb[1])
                cells = []
                u = np.array(rng.mid(K))
                for i, j in itertools.product(range(ny_), range(nx)):
                    if dense:
                        rx, ry = rb or (2, 2)
                        sx = xe[j] + (xe[j+1] - xe[j])*(np.arange(rx) + 0.5)/rx
                        se = ye[i] + (ye[i+1] - ye[i])*np.arange(ry + 1)/ry
                        y = np.repeat(0.5*(se[1:] + se[:-1]), rx)
                        x = np.tile(sx, ry)
                        wt = np.repeat(np.sin(se[1:]) - np.sin(se[:-1]), rx)
                    else:
                        sa, sb = np.sin(ye[i]), np.sin(ye[i+1])
                        y = np.repeat(np.arcsin(sa + u*(sb - sa)), K)
                        x = np.tile(xe[j] + u*(xe[j+1] - xe[j]), K)
                        wt = np.ones(K*K)
                    cells.append((rot.vec(x, PI/2 - y) @ R.T, wt))
                m = hs.matrix(ns, cells)
                with rec.case(key):
                    def make():
                        cls = M.densegrid.Heal2Polar if dense else M.montecarlo.Heal2Polar
                        o = cls()
                        o.setup_map(ns)
                        o.setup_box(xl, nx, **k2)
                        return o
                    fails = None
                    for o in ([rec.call(make)] if dense else hs.scripted(rec, make, K, 2, nx*ny_)):
                        xm, ym = 0.5*(xe[1:] + xe[:-1]), 0.5*(ye[1:] + ye[:-1])
                        rec.check(close(o.x2d, np.tile(xm, (ny_, 1))) and
                                  close(o.y2d, np.tile(ym[:, None], (1, nx))), key,
                                  "coordinates of the patch")

                        def remap(f, w=None):
                            k3 = {} if w is None else {"w": w}
                            return o.remap(f, verbose=False, **k3)
                        got = hs.deviations(rec, remap, m, (ny_, nx), npix)
                        if fails is None or len(got) < len(fails):
                            fails = got
                        if not fails:
                            break
                    rec.check(not fails, key, "remapped map", failures=fails[:3])
