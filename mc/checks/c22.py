"""C22: dense remap of a 2D box onto polar rings."""
import itertools

import numpy as np

from mc import ref_maps as rm
from mc.core import close

SRC = False
MAPS = True
TWO = 2*np.pi
BOXES = [(-1., 1., 3, -1., 1., 3), (-2., 1., 4, -0.5, 1.7, 2), (0., 1., 1, 0., 1., 3),
         (-3., 3., 2, -3., 3., 5), (10., 12., 3, -1e-3, 1e-3, 2), (-1., 2., 3, -1.5, 1.5, 1)]
POLAR = [(0., 1., 2, 4, 0., TWO), (0., 0.6, 1, 1, 0., TWO), (0.3, 2.5, 3, 2, 0., np.pi),
         (0., 1.3, 1, 3, 1., 2.5), (0.2, 0.9, 2, 1, 0.1, 6.), (0., 4., 4, 5, 0., TWO)]
REBIN = [None, (1, 1), (2, 3), (3, 1), (1, 4), (5, 2)]
BOUNDS = {
    "quick": "6 boxes x 6 polar grids x 5 centres x 6 sub-divisions (unequal ones and the "
             "default) x 5 rotations x every basis field, plus a dense field with 3 weight maps",
    "thorough": "as quick, with 4 more sub-divisions up to 12 and 9 rotations",
}
ASSUMPTIONS = ["sub-cell centres within 1e-7 of a border between box cells may count on either side",
               "finite fields, non-negative weights"]


def shards(tier):
    return [{"box": i, "polar": j, "t": tier} for i in range(len(BOXES)) for j in range(len(POLAR))]


def matrix(box, pol, rb, cen, shift):
    r0, r1, nr, npn, p0, p1 = pol
    m = rm.Matrix(nr*npn, box[2]*box[5])
    for i in range(npn):
        for j in range(nr):
            r, p, a = rm.polar_points(r0 + (r1 - r0)*j/nr, r0 + (r1 - r0)*(j + 1)/nr,
                                      p0 + (p1 - p0)*i/npn, p0 + (p1 - p0)*(i + 1)/npn, *rb)
            x, y = cen[0] + r*np.cos(p + shift), cen[1] + r*np.sin(p + shift)
            m.add(i*nr + j, rm.box_candidates(x, y, box), a)
    return m


def fields(n):
    return np.cos(np.arange(n)*1.7)*3. + np.arange(n)


def run(sh, rec, M):
    box, pol = BOXES[sh["box"]], POLAR[sh["polar"]]
    x0, x1, nx, y0, y1, ny = box
    r0, r1, nr, npn, p0, p1 = pol
    t = sh["t"] == "thorough"
    cx, cy = 0.5*(x0 + x1), 0.5*(y0 + y1)
    cens = [None, (cx, cy), (x0, y0), (cx + 0.37*(x1 - x0), cy - 0.21*(y1 - y0)),
            (x1 + 0.5*(x1 - x0), cy)]
    rebs = REBIN + ([(4, 4), (7, 3), (12, 1), (2, 12)] if t else [])
    shifts = [None, 0.7, -0.5, np.pi, 6.] + ([1e-3, 2., 3.5, -3.] if t else [])
    xm = x0 + (x1 - x0)*(np.arange(nx) + 0.5)/nx
    ym = y0 + (y1 - y0)*(np.arange(ny) + 0.5)/ny
    rmid = r0 + (r1 - r0)*(np.arange(nr) + 0.5)/nr
    pmid = p0 + (p1 - p0)*(np.arange(npn) + 0.5)/npn
    for ci, cen in enumerate(cens):
        for rb in rebs:
            for shift in shifts:
                key = {"box": box, "polar": pol, "center": cen, "rebin": rb, "shift": shift}
                with rec.case(key):
                    b = M.densegrid.Box2Ring()
                    kw = {}
                    if cen is not None:
                        kw["center"] = [list, tuple, np.array][ci % 3](cen)
                    if rb is not None:
                        kw.update(rebin_r=rb[0], rebin_p=rb[1])
                    if shift is not None:
                        kw["phi_shift"] = shift
                    if (p0, p1) != (0., TWO):
                        kw.update(pmin=p0, pmax=p1)
                    rec.call(b.setup_box, *box)
                    rec.call(b.setup_polar, r0, r1, nr, npn, **kw)
                    rec.check(close(b.x2d, np.tile(xm, (ny, 1))) and
                              close(b.y2d, np.tile(ym[:, None], (1, nx))) and
                              close(b.r2d, np.tile(rmid, (npn, 1))) and
                              close(b.p2d, np.tile(pmid[:, None], (1, nr))), key,
                              "coordinates of the grids")
                    m = matrix(box, pol, rb or (2, 2), cen or (0., 0.), shift or 0.)
                    lo, hi = m.low/m.total[:, None], m.high/m.total[:, None]
                    for k in range(nx*ny):
                        f = np.zeros(nx*ny)
                        f[k] = 1.
                        r = rec.call(b.remap, f.reshape(ny, nx), verbose=False)
                        rec.outcome(r)
                        ok = np.shape(r) == (npn, nr)
                        if ok:
                            r1_ = np.ravel(r)
                            ok = np.all((r1_ >= lo[:, k] - 1e-9) & (r1_ <= hi[:, k] + 1e-9))
                        rec.check(ok, key, "box cell %d" % k, got=r, want=lo[:, k])
                    sure = m.sure()
                    f = fields(nx*ny)
                    want = (m.low @ f)/m.total
                    r = rec.call(b.remap, f.reshape(ny, nx), verbose=False)
                    rec.check(np.shape(r) == (npn, nr) and close(np.ravel(r)[sure], want[sure]),
                              key, "dense field", got=r, want=want)
                    for w in (np.ones(nx*ny), 0.5 + (np.arange(nx*ny)*5 % 3),
                              1.*(np.arange(nx*ny) % 2)):
                        r = rec.call(b.remap, f.reshape(ny, nx), w=w.reshape(ny, nx), verbose=False)
                        want = (m.low @ (f*w))/(m.low @ w)
                        rec.check(np.shape(r) == (npn, nr) and
                                  close(np.ravel(r)[sure], want[sure]), key, "weighted field",
                                  w=w, got=r, want=want)
