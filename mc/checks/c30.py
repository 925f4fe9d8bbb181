"""C30: in-bound masks and radial profiles of the ring remappers."""
import itertools

import numpy as np

from mc import ref_maps as rm
from mc import rng
from mc.checks import c22, c23
from mc.core import close

SRC = False
MAPS = True
PI, TWO = np.pi, 2*np.pi
BOXES = [(-1., 1., 3, -1., 1., 3), (-2., 1., 4, -0.5, 1.7, 2), (-1., 2., 3, -1.5, 1.5, 1)]
POLAR = [(0., 0.9, 2, 3, 0., TWO), (0.3, 1.6, 3, 2, 0., PI), (0.1, 1.3, 2, 4, 0., TWO),
         (0., 0.4, 1, 1, 0., TWO), (3., 4., 1, 2, 0., TWO), (0.2, 1.9, 2, 2, 1., 5.),
         (0.1, 0.9, 1, 2, 0., TWO)]
RINGS = [(0., 0.6, 2, 3, 0., TWO), (0.3, 2.9, 3, 2, 0., PI), (0.2, 1.3, 1, 4, 1., 2.5)]
BOUNDS = {
    "quick": "3 boxes x 6 polar grids (inside, crossing, outside) x 3 centres, 46 centres with slivers of cells outside, dense (3 "
             "sub-divisions) and Monte Carlo (6x6 answers per cell); 3 cap grids x nside 1, 2, 4 "
             "for both HEALPix classes; every 0/1 weight pattern (and uneven weights), with and "
             "without errors, fields, errors and weights with NaN in the cells that are not fully inside",
    "thorough": "as quick with 6 centres",
}
ASSUMPTIONS = ["the Monte Carlo mask tells whether any point of the cell is inside",
               "configurations with points within 1e-7 of the box are not judged"]


def shards(tier):
    return ([{"kind": k, "box": i, "polar": j, "t": tier} for k in ("dense", "mc")
             for i in range(len(BOXES)) for j in range(6)] +
            [{"kind": "thin", "box": 0, "polar": j, "t": tier, "k": k} for j in (0, 6) for k in range(4)] +
            [{"kind": k, "ring": j, "t": tier} for k in ("hdense", "hmc") for j in range(len(RINGS))])


def profiles(rec, key, o, mask, area, pix):
    """Radial profiles of o against sums over the cells with full mask."""
    nb, nr = mask.shape
    keep = mask >= 1. - 1e-12
    n = nb*nr
    base = (3.*np.cos(np.arange(n)*1.7) + np.arange(n)).reshape(nb, nr)
    sig = (0.3 + 0.1*((np.arange(n)*5) % 7)).reshape(nb, nr)
    holes = base.copy()
    holes[~keep] = np.nan
    ws = [None, 0.5 + base**2] + [np.array(v).reshape(nb, nr)*1. for v in
                                  itertools.product((0, 1), repeat=min(n, 8) if n <= 8 else 0)]
    for f in (base, holes):
        for w in ws:
            for s in (None, sig):
                W = np.where(keep, 1. if w is None else w, 0.)
                want, err = np.full(nr, np.nan), np.full(nr, np.nan)
                for j in range(nr):
                    t = sum(W[:, j])
                    if t > 0:
                        want[j] = sum(W[i, j]*base[i, j] for i in range(nb) if keep[i, j])/t
                        err[j] = np.sqrt(sum(pix/area[j]*(W[i, j]*sig[i, j])**2 for i in range(nb)))/t
                kw = {"verbose": False}
                if w is not None:
                    kw["w"] = w.copy()
                if s is not None:
                    kw["sigma"] = s.copy()
                if f is holes:          # nothing from outside counts, not even NaN
                    for v in kw.values():
                        if v is not False:
                            v[~keep] = np.nan
                given, kept = f.copy(), {q: np.copy(v) for q, v in kw.items()}
                r = rec.call(o.polar2radial, given, **kw)
                rec.check(np.array_equal(given, f, equal_nan=True) and
                          all(np.array_equal(kw[q], v, equal_nan=q != "verbose") for q, v in kept.items()), key,
                          "the radial profile changes what it is given", w=w, got=kw, want=kept)
                if s is None:
                    rec.outcome(r)
                    rec.check(close(r, want), key, "radial profile", w=w, got=r, want=want)
                else:
                    rec.check(len(r) == 2 and close(r[0], want) and close(r[1], err), key,
                              "radial profile with errors", w=w, got=r, want=[want, err])
    rec.state(key)
    for bad in ({"f_polar": np.ones((nb + 1, nr))}, {"f_polar": base, "sigma": np.ones((nb, nr + 1))}):
        try:
            rec.call(o.polar2radial, **bad)
        except Exception:
            rec.check(True, key, "")
        else:
            rec.check(False, key, "shapes that do not fit are accepted")


def run(sh, rec, M):
    t = sh["t"] == "thorough"
    thin = sh["kind"] == "thin"
    if thin:
        # slivers: less than a few per cent of a cell outside, or inside
        sh = dict(sh, kind="dense")
        r = np.arange(-2, 21 if not t else 61)*0.01
        slivers = [(0.1 + x, 0.013) for x in r] + [(-0.013, -0.1 - x) for x in r]
        slivers = slivers[sh["k"]::4]
    if sh["kind"] in ("dense", "mc"):
        box, pol = BOXES[sh["box"]], POLAR[sh["polar"]]
        r0, r1, nr, npn, p0, p1 = pol
        re = r0 + (r1 - r0)*np.arange(nr + 1)/nr
        area = [0.5*(b*b - a*a)*(p1 - p0)/npn for a, b in zip(re[:-1], re[1:])]
        pix = (box[1] - box[0])/box[2]*(box[4] - box[3])/box[5]
        cens = [(0., 0.), (0.137, -0.21), (0.8, 0.53)] + \
            [(5., 5.)] + ([(-1.9, 0.3), (0.02, 0.9)] if t else [])
        for cen in slivers if thin else cens:
            for rb in ((8, 20), (12, 40)) if thin else (((2, 2), (3, 4), (1, 1)) if sh["kind"] == "dense" else (None,)):
                key = {"kind": sh["kind"], "box": box, "polar": pol, "center": cen, "rebin": rb}
                kw = {"center": list(cen)}
                if (p0, p1) != (0., TWO):
                    kw.update(pmin=p0, pmax=p1)
                with rec.case(key):
                    if sh["kind"] == "dense":
                        m = c22.matrix(box, pol, rb, cen, 0.)
                        b = M.densegrid.Box2Ring()
                        b.setup_box(*box)
                        b.setup_polar(r0, r1, nr, npn, rebin_r=rb[0], rebin_p=rb[1], **kw)
                        mask = m.inlow/m.total
                    else:
                        m = c23.matrix(box, ("lin",) + pol, cen, 0., 6)
                        b = M.montecarlo.Box2Ring()
                        b.setup_box(*box)
                        b.setup_polar_lin(r0, r1, nr, npn, **kw)
                        for layout in rng.LAYOUTS[:1]:
                            rng.scripted(lambda: rec.call(b.get_weights, mc_size=36, verbose=False),
                                         rng.product_grid(rng.mid(6), 2, layout)*(nr*npn))
                        mask = (m.inlow > 0)*1.
                    if np.any(m.inlow != m.inhigh):
                        rec.skipped += 1
                        continue
                    mask = mask.reshape(npn, nr)
                    if thin:
                        rec.count("cells with under 2 per cent outside", int(np.sum((mask < 1) & (mask > 0.98))))
                    # the profile before anyone asked for the mask, then the mask itself
                    profiles(rec, key, b, mask, area, pix)
                    rec.call(b.get_mask_in_bound, verbose=False)
                    rec.check(close(b.mask_in_bound, mask), key, "in-bound mask",
                              got=b.mask_in_bound, want=mask)
                    profiles(rec, key, b, mask, area, pix)
    else:
        a0, a1, na, nb, b0, b1 = RINGS[sh["ring"]]
        mod = M.densegrid if sh["kind"] == "hdense" else M.montecarlo
        ae = a0 + (a1 - a0)*np.arange(na + 1)/na
        area = [(np.cos(a) - np.cos(b))*(b1 - b0)/nb for a, b in zip(ae[:-1], ae[1:])]
        for ns in (1, 2, 4):
            key = {"kind": sh["kind"], "ring": RINGS[sh["ring"]], "nside": ns}
            with rec.case(key):
                o = mod.Heal2Ring()
                o.setup_map(ns)
                o.setup_polar_cap(a0, a1, na, nb, beta_min=b0, beta_max=b1, center=[1., 0.5])
                profiles(rec, key, o, np.ones((nb, na)), area, 4*PI/(12*ns*ns))
