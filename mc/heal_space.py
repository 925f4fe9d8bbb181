"""Shared by C26-C28: remap matrices from a HEALPix map and how results are judged."""
import healpy as hp
import numpy as np

from mc import ref_maps as rm
from mc import rng
from mc.core import close


def matrix(nside, cells):
    """cells: iterable of (unit vectors, weights) per target cell."""
    m = rm.Matrix(len(cells), 12*nside*nside)
    n = [len(w) for _, w in cells]
    vs = np.concatenate([v for v, _ in cells])
    cands = rm.heal_candidates(hp, nside, vs)
    a = 0
    for c, (v, w) in enumerate(cells):
        m.add(c, [x[a:a + n[c]] for x in cands], w)
        a += n[c]
    return m


def field(n):
    return 3.*np.cos(np.arange(n)*1.7) + np.arange(n)*0.1


def deviations(rec, remap, m, shape, npix, nan=None):
    """Compares every basis map, a dense map and weighted maps; list of deviations."""
    bad = []
    use = ~np.ravel(nan) if nan is not None else np.ones(len(m.total), bool)
    with np.errstate(all="ignore"):
        lo, hi = m.low/m.total[:, None], m.high/m.total[:, None]
    hit = np.where(np.any(m.high > 0, axis=0))[0]
    rest = [k for k in range(npix) if k not in set(hit.tolist())]
    for k in list(hit) + rest[:2]:
        f = np.zeros(npix)
        f[k] = 1.
        r = rec.call(remap, f)
        rec.outcome(r)
        rec.valid += 1
        if np.shape(r) != shape:
            return [["shape", np.shape(r)]]
        r = np.ravel(r)
        if not np.all(np.isnan(r[~use])):
            bad.append(["cells off the sphere must be NaN"])
        if not np.all((r[use] >= lo[use, k] - 1e-9) & (r[use] <= hi[use, k] + 1e-9)):
            i = int(np.argmax(use & ~((r >= lo[:, k] - 1e-9) & (r <= hi[:, k] + 1e-9))))
            bad.append(["map pixel", int(k), "target cell", i, r[i], lo[i, k], hi[i, k]])
            if len(bad) > 3:
                return bad
    sure = m.sure() & use
    f = field(npix)
    with np.errstate(all="ignore"):
        for w in (None, np.ones(npix), 0.5 + (np.arange(npix)*5 % 3), 1.*(np.arange(npix) % 2),
                  1.*(np.arange(npix) < 7)):
            W = np.ones(npix) if w is None else w
            r = np.asarray(rec.call(remap, f.copy(), **({} if w is None else {"w": w.copy()})))
            rec.valid += 1
            x = (m.low @ (f*W))/(m.low @ W)
            if not (r.shape == shape and close(np.ravel(r)[sure], x[sure])):
                bad.append(["dense map", "no weights" if w is None else w[:9]])
    return bad


def scripted(rec, make, K, ndraw, ncell):
    """Yields a remapper set up under every layout of the enumerated answers."""
    for layout in rng.LAYOUTS:
        obj = rec.call(make)
        script = rng.product_grid(rng.mid(K), ndraw, layout)*ncell
        rng.scripted(lambda: rec.call(obj.get_weights, mc_size=K**ndraw, verbose=False), script)
        yield obj
