"""C23: Monte Carlo remap of a 2D box onto polar rings, under a controlled random source."""
import numpy as np

from mc import ref_maps as rm
from mc import rng
from mc.core import close

SRC = False
MAPS = True
TWO = 2*np.pi
BOXES = [(-1., 1., 3, -1., 1., 3), (-2., 1., 4, -0.5, 1.7, 2), (0., 1., 1, 0., 1., 3),
         (-3., 3., 2, -3., 3., 5), (-1., 2., 3, -1.5, 1.5, 1)]
# kind, rmin, rmax, numr, nump, pmin, pmax
POLAR = [("lin", 0., 1., 2, 4, 0., TWO), ("lin", 0., 0.6, 1, 1, 0., TWO),
         ("lin", 0.3, 2.5, 3, 2, 0., np.pi), ("lin", 0., 1.3, 1, 3, 1., 2.5),
         ("lin", 0., 6., 4, 5, 0., TWO), ("log", 0.1, 2., 3, 3, 0., TWO),
         ("log0", 0.2, 1.5, 3, 2, 0., TWO), ("log", 0.5, 5., 1, 2, 0.5, 4.)]
BOUNDS = {
    "quick": "5 boxes x 8 polar grids (linear, logarithmic, with and without zero) x 4 centres x 3 rotations; in every polar cell "
             "all 7x7 combinations of equally likely random answers; every basis field, a dense "
             "field and 3 weight maps",
    "thorough": "as quick with 16x16 answers and 6 rotations",
}
ASSUMPTIONS = ["two uniform doubles per point, all of one polar cell drawn before the next",
               "points within 1e-7 of a border between box cells may count on either side",
               "finite fields, non-negative weights"]


def shards(tier):
    return [{"box": i, "polar": j, "t": tier} for i in range(len(BOXES)) for j in range(len(POLAR))]


def edges(pol):
    kind, r0, r1, nr, npn, p0, p1 = pol
    if kind == "lin":
        re = r0 + (r1 - r0)*np.arange(nr + 1)/nr
    elif kind == "log":
        re = r0*(r1/r0)**(np.arange(nr + 1)/nr)
    else:
        re = np.concatenate([[0.], r0*(r1/r0)**(np.arange(nr)/max(1, nr - 1))])
    return re, p0 + (p1 - p0)*np.arange(npn + 1)/npn


def matrix(box, pol, cen, shift, K):
    re, pe = edges(pol)
    nr, npn = len(re) - 1, len(pe) - 1
    m = rm.Matrix(nr*npn, box[2]*box[5])
    u = np.array(rng.mid(K))
    for i in range(npn):
        for j in range(nr):
            r = np.repeat(np.sqrt(re[j]**2 + u*(re[j+1]**2 - re[j]**2)), K)
            p = np.tile(pe[i] + u*(pe[i+1] - pe[i]), K) + shift
            m.add(i*nr + j, rm.box_candidates(cen[0] + r*np.cos(p), cen[1] + r*np.sin(p), box),
                  np.ones(K*K))
    return m


def make(M, box, pol, kw):
    b = M.montecarlo.Box2Ring()
    b.setup_box(*box)
    kind, r0, r1, nr, npn, p0, p1 = pol
    kw = dict(kw)
    if (p0, p1) != (0., TWO):
        kw.update(pmin=p0, pmax=p1)
    if kind == "lin":
        b.setup_polar_lin(r0, r1, nr, npn, **kw)
    elif kind == "log":
        b.setup_polar_log(r0, r1, nr, npn, addzero=False, **kw)
    else:
        b.setup_polar_log(r0, r1, nr, npn, **kw)
    return b


def run(sh, rec, M):
    box, pol = BOXES[sh["box"]], POLAR[sh["polar"]]
    x0, x1, nx, y0, y1, ny = box
    t = sh["t"] == "thorough"
    K = 16 if t else 7
    re, pe = edges(pol)
    nr, npn = len(re) - 1, len(pe) - 1
    xm = x0 + (x1 - x0)*(np.arange(nx) + 0.5)/nx
    ym = y0 + (y1 - y0)*(np.arange(ny) + 0.5)/ny
    cx, cy = 0.5*(x0 + x1), 0.5*(y0 + y1)
    cens = [None, (cx, cy), (x0, y0), (cx + 0.37*(x1 - x0), cy - 0.21*(y1 - y0))]
    for ci, cen in enumerate(cens):
        for shift in [None, 0.7, -0.5] + ([np.pi, 6., 2.] if t else []):
            key = {"box": box, "polar": pol, "center": cen, "shift": shift}
            with rec.case(key):
                kw = {}
                if cen is not None:
                    kw["center"] = [list, tuple, np.array][ci % 3](cen)
                if shift is not None:
                    kw["phi_shift"] = shift
                m = matrix(box, pol, cen or (0., 0.), shift or 0., K)
                want = [m.low/m.inhigh[:, None], m.high/np.where(m.inlow > 0, m.inlow, np.nan)[:, None]]
                fails = None
                for layout in rng.LAYOUTS:
                    b = rec.call(make, M, box, pol, kw)
                    rec.check(close(b.x2d, np.tile(xm, (ny, 1))) and
                              close(b.y2d, np.tile(ym[:, None], (1, nx))) and
                              close(b.redges, re) and close(b.pedges, pe) and
                              close(b.r2d, np.tile(0.5*(re[1:] + re[:-1]), (npn, 1))) and
                              close(b.p2d, np.tile(0.5*(pe[1:] + pe[:-1])[:, None], (1, nr))),
                              key, "coordinates of the grids")
                    script = rng.product_grid(rng.mid(K), 2, layout)*(nr*npn)
                    _, used = rng.scripted(lambda: rec.call(b.get_weights, mc_size=K*K, verbose=False),
                                           script)
                    got = judge(rec, b, m, want, nx, ny, nr, npn)
                    if fails is None or len(got) < len(fails):
                        fails = got
                    if not fails:
                        break
                rec.check(not fails, key, "remapped field", failures=fails[:3])


def judge(rec, b, m, want, nx, ny, nr, npn):
    """List of deviations from the reference."""
    bad = []
    none = m.inhigh == 0
    some = m.inlow > 0
    for k in range(nx*ny):
        f = np.zeros(nx*ny)
        f[k] = 1.
        r = rec.call(b.remap, f.reshape(ny, nx), verbose=False)
        rec.outcome(r)
        rec.valid += 1
        if np.shape(r) != (npn, nr):
            return [["shape", np.shape(r)]]
        r = np.ravel(r)
        if not np.all(np.isnan(r[none])):
            bad.append(["cells without points must be NaN", r])
        if not np.all((r[some] >= want[0][some, k] - 1e-9) & (r[some] <= want[1][some, k] + 1e-9)):
            bad.append(["box cell", k, r, want[0][:, k]])
    sure = m.sure()
    f = 3.*np.cos(np.arange(nx*ny)*1.7) + np.arange(nx*ny)
    with np.errstate(all="ignore"):
        for w in (None, np.ones(nx*ny), 0.5 + (np.arange(nx*ny)*5 % 3), 1.*(np.arange(nx*ny) % 2)):
            W = np.ones(nx*ny) if w is None else w
            r = np.ravel(rec.call(b.remap, f.reshape(ny, nx), w=None if w is None else
                                  w.reshape(ny, nx), verbose=False))
            rec.valid += 1
            x = (m.low @ (f*W))/(m.low @ W)
            if not close(r[sure], x[sure]):
                bad.append(["field with weights", w, r, x])
    return bad
