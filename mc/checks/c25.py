"""C25: Monte Carlo remap of a 3D cube onto HEALPix shells, under a controlled random source."""
import healpy as hp
import numpy as np

from mc import ref_maps as rm
from mc import rng, rot
from mc.core import close

SRC = False
MAPS = True
CUBES = [(-1., 1., 2, -1., 1., 2, -1., 1., 2), (-1., 2., 3, -0.5, 1.5, 2, -2., 1., 4),
         (0., 1., 1, 0., 1., 2, 0., 1., 3)]
# kind, rmin, rmax, numr, nside
SHELLS = [("lin", 0., 1., 1, 1), ("lin", 0.3, 2., 2, 1), ("lin", 0.5, 0.9, 1, 2),
          ("lin", 0., 6., 2, 2), ("log", 0.2, 2., 2, 1), ("log0", 0.5, 1.5, 3, 1),
          ("lin", 0.4, 1., 1, 3)]
BOUNDS = {
    "quick": "3 cubes x 7 shell sets (linear, logarithmic; nside 1, 2, 3) x 4 centres; in every "
             "shell cell all 5x5x5 combinations of equally likely random answers; every basis "
             "field, a dense field and 3 weight maps",
    "thorough": "as quick with 10x10x10 answers",
}
ASSUMPTIONS = ["three uniform doubles per point, all of one cell drawn before the next",
               "points within 1e-7 of a border may count on either side",
               "finite fields, non-negative weights"]


def shards(tier):
    return [{"cube": i, "shell": j, "cen": k, "K": 10 if tier == "thorough" else 5}
            for i in range(len(CUBES)) for j in range(len(SHELLS)) for k in range(4)]


def edges(shell):
    kind, r0, r1, nr, ns = shell
    if kind == "lin":
        return r0 + (r1 - r0)*np.arange(nr + 1)/nr
    if kind == "log":
        return r0*(r1/r0)**(np.arange(nr + 1)/nr)
    return np.concatenate([[0.], r0*(r1/r0)**(np.arange(nr)/max(1, nr - 1))])


def setup(M, cube, shell, kw):
    c = M.montecarlo.Cube2Shell()
    c.setup_cube(*cube)
    kind, r0, r1, nr, ns = shell
    if kind == "lin":
        c.setup_polar_lin(r0, r1, nr, ns, **kw)
    elif kind == "log":
        c.setup_polar_log(r0, r1, nr, ns, addzero=False, **kw)
    else:
        c.setup_polar_log(r0, r1, nr, ns, **kw)
    return c


def run(sh, rec, M):
    cube, shell, K = CUBES[sh["cube"]], SHELLS[sh["shell"]], sh["K"]
    x0, x1, nx, y0, y1, ny, z0, z1, nz = cube
    re, ns = edges(shell), shell[4]
    nr, npix, ncell = len(re) - 1, 12*shell[4]**2, nx*ny*nz
    shp = (ny, nx, nz)
    cx, cy, cz = 0.5*(x0 + x1), 0.5*(y0 + y1), 0.5*(z0 + z1)
    cen = [None, (cx, cy, cz), (cx + 0.137, cy - 0.0713, cz + 0.2191),
           (x1 + 0.31, cy + 0.0117, z0 - 0.127)][sh["cen"]]
    u = np.array(rng.mid(K))
    m = rm.Matrix(nr*npix, ncell)
    uu, vv, ww = [g.ravel() for g in np.meshgrid(u, u, u)]
    for q in range(npix):
        ph, th = rm.pixel_points(hp, ns, q, uu, vv)
        v = rot.vec(ph, th)
        for i in range(nr):
            r = (re[i]**3 + ww*(re[i+1]**3 - re[i]**3))**(1/3.)
            p = r[:, None]*v + np.array(cen or (0., 0., 0.))
            m.add(i*npix + q, rm.cube_candidates(p[:, 0], p[:, 1], p[:, 2], cube),
                  np.ones(K**3))
    key = {"cube": cube, "shell": shell, "center": cen, "K": K}
    with rec.case(key):
        kw = {} if cen is None else {"center": [list, tuple, np.array][sh["cen"] % 3](cen)}
        fails = None
        for layout in rng.LAYOUTS:
            c = rec.call(setup, M, cube, shell, kw)
            rec.check(close(c.redges, re) and close(c.rmid, 0.5*(re[1:] + re[:-1])), key,
                      "shell edges")
            ax = [a + (b - a)*(np.arange(n) + 0.5)/n for a, b, n in
                  ((x0, x1, nx), (y0, y1, ny), (z0, z1, nz))]
            rec.check(close(c.x3d, np.broadcast_to(ax[0][None, :, None], shp)) and
                      close(c.y3d, np.broadcast_to(ax[1][:, None, None], shp)) and
                      close(c.z3d, np.broadcast_to(ax[2][None, None, :], shp)), key,
                      "coordinates of the cube")
            script = rng.product_grid(rng.mid(K), 3, layout)*(nr*npix)
            rng.scripted(lambda: rec.call(c.get_weights, mc_size=K**3, verbose=False), script)
            got = judge(rec, c, m, ncell, shp, (nr, npix))
            if fails is None or len(got) < len(fails):
                fails = got
            if not fails:
                break
        rec.check(not fails, key, "remapped field", failures=fails[:3])


def judge(rec, c, m, ncell, shp, oshp):
    bad = []
    none, some = m.inhigh == 0, m.inlow > 0
    with np.errstate(all="ignore"):
        lo, hi = m.low/m.inhigh[:, None], m.high/m.inlow[:, None]
    for k in range(ncell):
        f = np.zeros(ncell)
        f[k] = 1.
        r = rec.call(c.remap, f.reshape(shp), verbose=False)
        rec.outcome(r)
        rec.valid += 1
        if np.shape(r) != oshp:
            return [["shape", np.shape(r)]]
        r = np.ravel(r)
        if not np.all(r[none] == hp.UNSEEN):
            bad.append(["cells without points must be unseen", r[none]])
        if not np.all((r[some] >= lo[some, k] - 1e-9) & (r[some] <= hi[some, k] + 1e-9)):
            bad.append(["cube cell", k, r, lo[:, k]])
    sure = m.sure() & ~none
    f = 3.*np.cos(np.arange(ncell)*1.7) + np.arange(ncell)
    with np.errstate(all="ignore"):
        for w in (None, np.ones(ncell), 0.5 + (np.arange(ncell)*5 % 3), 1.*(np.arange(ncell) % 2)):
            W = np.ones(ncell) if w is None else w
            r = np.ravel(rec.call(c.remap, f.reshape(shp), w=None if w is None else w.reshape(shp),
                                  verbose=False))
            rec.valid += 1
            x = (m.low @ (f*W))/(m.low @ W)
            if not close(r[sure], x[sure]):
                bad.append(["field with weights", w, r, x])
            if not np.all(r[none] == hp.UNSEEN):
                bad.append(["weighted cells without points must be unseen"])
    return bad
