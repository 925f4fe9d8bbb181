"""C26: HEALPix map to rings about a centre, dense and Monte Carlo."""
import itertools

import numpy as np

from mc import heal_space as hs
from mc import rng, rot
from mc.core import close

SRC = False
MAPS = True
PI, TWO = np.pi, 2*np.pi
CENTERS = [None, (0., 0.), (1., 0.7), (4.1, 2.), (0., PI/2), (6.2, 3.), (2., PI - 0.01), (0., PI),
           (TWO, 1.), (5., PI/2), (5., 0.), (2., PI)]
RINGS = [(0., 0.6, 2, 4, 0., TWO), (0., PI, 3, 2, 0., TWO), (0.2, 1.3, 1, 3, 1., 2.5),
         (0.5, 2.5, 2, 1, 0.1, 6.), (0., 1.1, 1, 1, 0., TWO)]
SHIFTS = [None, 0.7, 3.5, 6.]
BOUNDS = {
    "quick": "12 centres (poles, equator, seam) x 5 ring grids x 4 rotations x nside 1, 2, 3, 8; "
             "dense: 5 sub-divisions (unequal ones and the default); Monte Carlo: all 7x7 "
             "combinations of equally likely answers per cell; every basis map that can "
             "contribute (and two that cannot), a dense map, 4 weight maps",
    "thorough": "as quick with nside 16, 5 and 15x15 answers and sub-divisions up to 9",
}
ASSUMPTIONS = ["two uniform doubles per Monte Carlo point, all of one cell drawn before the next",
               "points within 1e-7 of a pixel border may count on either side",
               "rings within [0, pi]"]


def shards(tier):
    t = tier == "thorough"
    out = []
    for kind in ("dense", "mc"):
        for ns in (1, 2, 3, 8) + ((16, 5) if t else ()):
            for c in range(len(CENTERS)):
                out.append({"kind": kind, "nside": ns, "cen": c, "t": tier})
    out.sort(key=lambda s: -s["nside"])
    return out


def run(sh, rec, M):
    ns, cen, t = sh["nside"], CENTERS[sh["cen"]], sh["t"] == "thorough"
    npix = 12*ns*ns
    c0, c1 = cen or (0., 0.)
    dense = sh["kind"] == "dense"
    rebs = [None, (1, 1), (2, 3), (3, 1), (1, 4)] + ([(9, 5)] if t else [])
    K = 15 if t else 7
    for ring in RINGS:
        a0, a1, na, nb, b0, b1 = ring
        ae = a0 + (a1 - a0)*np.arange(na + 1)/na
        be = b0 + (b1 - b0)*np.arange(nb + 1)/nb
        for shift in SHIFTS:
            R = rot.Rz(c0) @ rot.Ry(c1) @ rot.Rz(shift or 0.)
            kw = {}
            if cen is not None:
                kw["center"] = [list, tuple, np.array][sh["cen"] % 3](cen)
            if shift is not None:
                kw["beta_shift"] = shift
            if (b0, b1) != (0., TWO):
                kw.update(beta_min=b0, beta_max=b1)
            for rb in (rebs if dense else [None]):
                key = {"kind": sh["kind"], "nside": ns, "center": cen, "ring": ring,
                       "shift": shift, "rebin": rb}
                k2 = dict(kw)
                if rb is not None:
                    k2.update(rebin_alpha=rb[0], rebin_beta=rb[1])
                cells = []
                u = np.array(rng.mid(K))
                for i, j in itertools.product(range(nb), range(na)):
                    if dense:
                        ra, rbb = rb or (2, 2)
                        se = ae[j] + (ae[j+1] - ae[j])*np.arange(ra + 1)/ra
                        sb = be[i] + (be[i+1] - be[i])*(np.arange(rbb) + 0.5)/rbb
                        th = np.repeat(0.5*(se[1:] + se[:-1]), rbb)
                        ph = np.tile(sb, ra)
                        wt = np.repeat(np.cos(se[:-1]) - np.cos(se[1:]), rbb)
                    else:
                        ca, cb = np.cos(ae[j]), np.cos(ae[j+1])
                        th = np.repeat(np.arccos(ca + u*(cb - ca)), K)
                        ph = np.tile(be[i] + u*(be[i+1] - be[i]), K)
                        wt = np.ones(K*K)
                    cells.append((rot.vec(ph, th) @ R.T, wt))
                m = hs.matrix(ns, cells)
                with rec.case(key):
                    def make():
                        cls = M.densegrid.Heal2Ring if dense else M.montecarlo.Heal2Ring
                        o = cls()
                        o.setup_map(ns)
                        o.setup_polar_cap(a0, a1, na, nb, **k2)
                        return o
                    fails = None
                    for o in ([rec.call(make)] if dense else hs.scripted(rec, make, K, 2, na*nb)):
                        am, bm = 0.5*(ae[1:] + ae[:-1]), 0.5*(be[1:] + be[:-1])
                        rec.check(close(o.alpha2d, np.tile(am, (nb, 1))) and
                                  close(o.beta2d, np.tile(bm[:, None], (1, na))) and
                                  close(o.alpha_edges, ae) and close(o.beta_edges, be), key,
                                  "coordinates of the rings")

                        def remap(f, w=None):
                            k3 = {} if w is None else {"w": w}
                            return o.remap(f, verbose=False, **k3)
                        got = hs.deviations(rec, remap, m, (nb, na), npix)
                        if fails is None or len(got) < len(fails):
                            fails = got
                        if not fails:
                            break
                    rec.check(not fails, key, "remapped map", failures=fails[:3])
