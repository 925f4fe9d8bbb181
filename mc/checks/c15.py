"""C15: random points in a HEALPix pixel stay in it and fill it evenly."""
import itertools

import healpy as hp
import numpy as np

from mc import rng

SRC = False
MAPS = False
BOUNDS = {
    "quick": "every pixel of nside 1, 2, 3, 4, 5, 8 and ring-corner pixels of nside 16, 64, "
             "1024; all 32x32 answer combinations (containment and 16 sub-pixels) and all "
             "combinations of near-extreme answers",
    "thorough": "every pixel of nside 1..10, 16, 32; 48x48 answers",
}
ASSUMPTIONS = ["pixel membership is decided by healpy.ang2pix (RING)",
               "two uniform doubles per point"]


def pixels(ns, full):
    n = 12*ns*ns
    if full:
        return list(range(n))
    out = set()
    for ring in sorted({1, 2, ns - 1, ns, ns + 1, 2*ns, 3*ns - 1, 3*ns, 3*ns + 1, 4*ns - 1}):
        s, m, _, _, _ = hp.ringinfo(ns, np.array([ring]))
        s, m = int(s[0]), int(m[0])
        out |= {s, s + m - 1, s + m//4, s + m//4 - 1, s + m//2, s + m//2 - 1}
    return sorted(p for p in out if 0 <= p < n)


def shards(tier):
    out = []
    full = (1, 2, 3, 4, 5, 8) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 32)
    for ns in full:
        ps = pixels(ns, True)
        for i in range(0, len(ps), 64):
            out.append({"nside": ns, "pix": ps[i:i + 64], "K": 32 if tier == "quick" else 48})
    for ns in (16, 64, 1024):
        ps = pixels(ns, False)
        for i in range(0, len(ps), 16):
            out.append({"nside": ns, "pix": ps[i:i + 16], "K": 32})
    return out


def run(sh, rec, M):
    ns, K = sh["nside"], sh["K"]
    f = M.randoms.randoms_healpix_pixel
    lv = rng.mid(K)
    grids = {lay: rng.product_grid(lv, 2, lay) for lay in rng.LAYOUTS}
    ext = list(itertools.product((1e-6, 0.25, 0.5, 0.75, 1. - 1e-6), (1e-6, 0.5, 1. - 1e-6)))
    for p in sh["pix"]:
        key = {"nside": ns, "pix": p}
        with rec.case(key):
            res = []
            for lay in rng.LAYOUTS:
                (phi, theta), used = rng.scripted(lambda: rec.call(f, K*K, p, ns), grids[lay])
                rec.check(np.shape(phi) == (K*K,) and np.shape(theta) == (K*K,), key, "shape")
                inp = hp.ang2pix(ns, theta, phi % (2*np.pi))
                if not rec.check(bool(np.all(inp == p)), key, "point outside the pixel",
                                 outside=int(np.sum(inp != p))):
                    break
                rec.check(bool(np.all((phi >= 0.) & (phi < 2*np.pi + 1e-12))), key,
                          "phi outside [0, 2 pi)")
                _, cnt = np.unique(hp.ang2pix(4*ns, theta, phi % (2*np.pi)), return_counts=True)
                rec.outcome(phi[::97], theta[::97])
                e = K*K/16.
                res.append((len(cnt), float(np.max(np.abs(cnt - e))/e)))
                if res[-1][0] == 16 and res[-1][1] < 0.25:
                    break
            else:
                rec.check(False, key, "sub-pixels are not filled evenly", per_layout=res)
            for a in ext:
                (phi, theta), used = rng.scripted(lambda: rec.call(f, 1, p, ns), a)
                inp = hp.ang2pix(ns, theta, phi % (2*np.pi))
                rec.check(bool(np.all(inp == p)), key, "extreme answers leave the pixel",
                          answers=a, phi=phi, theta=theta)
            (phi, theta), used = rng.scripted(lambda: rec.call(f, 0, p, ns), [])
            rec.check(np.shape(phi) == (0,) and np.shape(theta) == (0,), key, "size 0")
