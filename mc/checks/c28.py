"""C28: HEALPix map on an orthographic grid, and sky positions on that grid."""
import itertools

import numpy as np

from mc import heal_space as hs
from mc import rot
from mc.core import close

SRC = False
MAPS = True
PI, TWO = np.pi, 2*np.pi
CENTERS = [None, (0., PI/2), (1., 0.7), (4.1, 2.), (0., 0.), (6.2, 3.), (2., PI), (TWO, 1.), (3*PI/2, 0.3), (1.3, 0.), (0., PI)]
# x_length, x_grid, y_length, y_grid, radius
BOX = [(2., 4, None, None, None), (1.1, 3, 0.7, 2, None), (2.6, 5, None, None, None),
       (3., 1, 1., 4, 2.), (0.5, 2, 0.45, 3, 0.3), (20., 3, None, 5, 10.)]
BOUNDS = {
    "quick": "11 centres (poles, equator, seam) x 6 grids and radii x nside 1, 2, 3, 8 x 5 "
             "sub-divisions (unequal ones and the default); every basis map that can "
             "contribute (and two that cannot), a dense map, 4 weight maps; transform of every "
             "position of a 24 x 13 lattice as array and every 5th as scalar",
    "thorough": "as quick with nside 16, 5, sub-divisions up to 9 and a 72 x 37 lattice",
}
ASSUMPTIONS = ["points within 1e-7 of a pixel border may count on either side",
               "a cell whose centre but no sub-cell is on the disc is not judged",
               "positions within 1e-9 of the limb may be visible or not"]


def shards(tier):
    t = tier == "thorough"
    out = [{"nside": ns, "cen": c, "t": tier} for ns in (1, 2, 3, 8) + ((16, 5) if t else ())
           for c in range(len(CENTERS))]
    out.sort(key=lambda s: -s["nside"])
    return out


def run(sh, rec, M):
    ns, cen, t = sh["nside"], CENTERS[sh["cen"]], sh["t"] == "thorough"
    npix = 12*ns*ns
    c0, c1 = cen or (0., 0.)
    R = rot.Rz(c0) @ rot.Ry(c1) @ rot.Rz(-1.5*PI)
    rebs = [None, (1, 1), (2, 3), (3, 1), (1, 4)] + ([(9, 5)] if t else [])
    for box in BOX:
        xl, nx, yl, ny, rad = box
        yl_, ny_, r = (xl if yl is None else yl), (nx if ny is None else ny), (rad or 1.)
        kw = {}
        if cen is not None:
            kw["center"] = [list, tuple, np.array][sh["cen"] % 3](cen)
        for n, v in (("y_length", yl), ("y_grid", ny), ("radius", rad)):
            if v is not None:
                kw[n] = v
        xm = -xl/2 + xl*(np.arange(nx) + 0.5)/nx
        ym = -yl_/2 + yl_*(np.arange(ny_) + 0.5)/ny_
        off = np.array([[x*x + y*y >= r*r for x in xm] for y in ym])
        for rb in rebs:
            key = {"nside": ns, "center": cen, "box": box, "rebin": rb}
            k2 = dict(kw)
            if rb is not None:
                k2.update(rebin_x=rb[0], rebin_y=rb[1])
            rx, ry = rb or (2, 2)
            cells, empty = [], np.zeros((ny_, nx), bool)
            for i, j in itertools.product(range(ny_), range(nx)):
                sx = xm[j] + xl/nx*((np.arange(rx) + 0.5)/rx - 0.5)
                sy = ym[i] + yl_/ny_*((np.arange(ry) + 0.5)/ry - 0.5)
                x, y = np.tile(sx, ry), np.repeat(sy, rx)
                on = x*x + y*y < r*r
                x, y = x[on], y[on]
                empty[i, j] = len(x) == 0
                v = np.stack([x, y, np.sqrt(r*r - x*x - y*y)], axis=-1)/r
                cells.append((v @ R.T, np.ones(len(x))))
            m = hs.matrix(ns, cells)
            with rec.case(key):
                o = M.densegrid.Heal2Ortho()
                rec.call(o.setup_map, ns)
                rec.call(o.setup_box, xl, nx, **k2)
                rec.check(close(o.x2d, np.tile(xm, (ny_, 1))) and
                          close(o.y2d, np.tile(ym[:, None], (1, nx))), key,
                          "coordinates of the grid")

                def remap(f, w=None):
                    k3 = {} if w is None else {"w": w}
                    q = np.array(o.remap(f, verbose=False, **k3))
                    if q.shape == off.shape:
                        q[empty & ~off] = np.nan
                    return q
                fails = hs.deviations(rec, remap, m, (ny_, nx), npix, nan=off | empty)
                rec.check(not fails, key, "remapped map", failures=fails[:3])
                if rb is None:
                    nl = 72 if t else 24
                    ph, th = [g.ravel() for g in np.meshgrid(TWO*np.arange(nl + 1)/nl,
                                                             PI*np.arange(nl//2 + 1)/(nl//2))]
                    v = r*(rot.vec(ph, th) @ R)
                    lim = np.abs(v[:, 2]) < 1e-9*r
                    for a, b, want in [(ph, th, v)] + [(float(ph[k]), float(th[k]), v[k])
                                                       for k in range(0, len(ph), 5)]:
                        x, y = rec.call(o.transform, a, b)
                        want = np.atleast_2d(want)
                        x, y = np.atleast_1d(x), np.atleast_1d(y)
                        lm = lim if len(want) > 1 else np.abs(want[:, 2]) < 1e-9*r
                        see = want[:, 2] > 0
                        ok = x.shape == y.shape == (len(want),)
                        if ok:
                            good = np.where(see, np.hypot(x - want[:, 0], y - want[:, 1]) < 1e-6*r,
                                            np.isnan(x) & np.isnan(y))
                            edge = np.isnan(x) | (np.hypot(x - want[:, 0], y - want[:, 1]) < 1e-6*r)
                            ok = bool(np.all(np.where(lm, edge, good)))
                        rec.check(ok, key, "transformed positions", phi=a, theta=b)
