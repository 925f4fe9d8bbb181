"""C24: dense remap of a 3D cube onto HEALPix shells."""
import itertools

import healpy as hp
import numpy as np

from mc import ref_maps as rm
from mc import rot
from mc.core import close

SRC = False
MAPS = True
CUBES = [(-1., 1., 2, -1., 1., 2, -1., 1., 2), (-1., 2., 3, -0.5, 1.5, 2, -2., 1., 4),
         (0., 1., 1, 0., 1., 2, 0., 1., 3), (5., 7., 2, -4., -1., 3, 0., 0.5, 1)]
SHELLS = [(0., 1., 1, 1), (0.3, 2., 2, 1), (0.5, 0.9, 1, 2), (0., 3., 3, 2), (1., 1.5, 2, 4), (0., 1e-11, 2, 1)]
REBIN = [None, (1, 1), (2, 3), (4, 1), (1, 4)]
PER = [None, {"periodicx": [-1, 1]}, {"periodicy": [0, 1]}, {"periodicz": [-1, 0]},
       {"periodicx": [-1, 1], "periodicy": [-1, 1], "periodicz": [-1, 1]},
       {"periodicx": [0, 2], "periodicz": [1, 2]}]
BOUNDS = {
    "quick": "4 cubes x 6 shell sets (nside 1, 2, 4, one of radius 1e-11) x 4 centres x 5 sub-divisions (unequal "
             "ones and the default) x 6 periodic settings; every basis field and a dense field",
    "thorough": "as quick with sub-divisions up to 16 x 5 and shells of nside 8",
}
ASSUMPTIONS = ["nside a power of two; sub-cells are HEALPix pixels of the finer nside at the "
               "middle radius", "points within 1e-7 of a border may count on either side"]


def shards(tier):
    n = len(SHELLS) + (1 if tier == "thorough" else 0)
    return [{"cube": i, "shell": j, "cen": k, "t": tier} for i in range(len(CUBES))
            for j in range(n) for k in range(4)]


def run(sh, rec, M):
    cube = CUBES[sh["cube"]]
    shell = (SHELLS + [(0.2, 1.2, 1, 8)])[sh["shell"]]
    x0, x1, nx, y0, y1, ny, z0, z1, nz = cube
    r0, r1, nr, ns = shell
    t = sh["t"] == "thorough"
    cx, cy, cz = 0.5*(x0 + x1), 0.5*(y0 + y1), 0.5*(z0 + z1)
    cen = [None, (cx, cy, cz), (cx + 0.137, cy - 0.0713, cz + 0.2191),
           (x1 + 0.31, cy + 0.0117, z0 - 0.127)][sh["cen"]]
    npix, ncell = 12*ns*ns, nx*ny*nz
    for rb in REBIN + ([(16, 5)] if t else []):
        rs, rr = rb or (2, 2)
        sub = ns*rs
        th, ph = hp.pix2ang(sub, np.arange(12*sub*sub))
        v = rot.vec(ph, th)
        parent = hp.vec2pix(ns, *v.T)
        order = np.argsort(parent, kind="stable")
        kids = order.reshape(npix, rs*rs)
        re = r0 + (r1 - r0)*np.arange(nr*rr + 1)/(nr*rr)
        for per in PER:
            key = {"cube": cube, "shell": shell, "center": cen, "rebin": rb, "periodic": per}
            with rec.case(key):
                kw = dict(per or {})
                if cen is not None:
                    kw["center"] = [list, tuple, np.array][sh["cen"] % 3](cen)
                if rb is not None:
                    kw.update(rebin_shell=rs, rebin_r=rr)
                c = M.densegrid.Cube2Shell()
                rec.call(c.setup_cube, *cube)
                rec.call(c.setup_polar, r0, r1, nr, ns, **kw)
                xm = x0 + (x1 - x0)*(np.arange(nx) + 0.5)/nx
                ym = y0 + (y1 - y0)*(np.arange(ny) + 0.5)/ny
                zm = z0 + (z1 - z0)*(np.arange(nz) + 0.5)/nz
                shp = (ny, nx, nz)
                rec.check(close(c.x3d, np.broadcast_to(xm[None, :, None], shp)) and
                          close(c.y3d, np.broadcast_to(ym[:, None, None], shp)) and
                          close(c.z3d, np.broadcast_to(zm[None, None, :], shp)), key,
                          "coordinates of the cube")
                rg = [(per or {}).get(k, [0, 0]) for k in ("periodicx", "periodicy", "periodicz")]
                images = list(itertools.product(*[range(a, b + 1) for a, b in rg]))
                C = cen or (0., 0., 0.)
                m = rm.Matrix(nr*npix, ncell)
                for i in range(nr):
                    for s in range(rr):
                        a, b = re[i*rr + s], re[i*rr + s + 1]
                        p = 0.5*(a + b)*v + np.array(C)
                        cands = rm.cube_candidates(p[:, 0], p[:, 1], p[:, 2], cube, images)
                        for q in range(npix):
                            kk = kids[q]
                            m.add(i*npix + q, [x[kk] for x in cands],
                                  np.full(len(kk), (b**3 - a**3)/(rs*rs)))
                lo, hi = m.low/m.total[:, None], m.high/m.total[:, None]
                for k in range(ncell):
                    f = np.zeros(ncell)
                    f[k] = 1.
                    r = rec.call(c.remap, f.reshape(shp), verbose=False)
                    rec.outcome(r)
                    ok = np.shape(r) == (nr, npix)
                    if ok:
                        x = np.ravel(r)
                        ok = np.all((x >= lo[:, k] - 1e-9) & (x <= hi[:, k] + 1e-9))
                    rec.check(ok, key, "cube cell %d" % k, got=r, want=lo[:, k])
                f = 3.*np.cos(np.arange(ncell)*1.7) + np.arange(ncell)
                r = rec.call(c.remap, f.reshape(shp), verbose=False)
                sure = m.sure()
                want = (m.low @ f)/m.total
                rec.check(np.shape(r) == (nr, npix) and close(np.ravel(r)[sure], want[sure]),
                          key, "dense field", got=r)
