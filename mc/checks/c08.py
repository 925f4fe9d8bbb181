"""C08: neighbours of every HEALPix pixel."""
import healpy as hp
import numpy as np

from mc.checks.c06 import ring_start
from mc.checks.c07 import plane_ring, rings

SRC = False
MAPS = False
BOUNDS = {
    "quick": "every pixel of nside 1..16, 20 and 32 (16 704 + pixels), single-pixel calls; ring-corner "
             "pixels of 19 rings for nside 50, 64, 100, 128, 255, 256, 512, 1000, 1023, 1024, 1025, "
             "2048, 4096, 8192",
    "thorough": "every pixel of nside 1..40, 50, 64, 100",
}
ASSUMPTIONS = ["reference: healpy.get_all_neighbours, RING ordering",
               "diamond indices identify pixels as in C06"]


def shards(tier):
    ns = list(range(1, 17)) + [20, 32]
    if tier != "quick":
        ns = list(range(1, 41)) + [50, 64, 100]
    out = []
    for n in ns:
        npix = 12*n*n
        k = max(1, npix//1500)
        out += [{"nside": n, "lo": npix*i//k, "hi": npix*(i + 1)//k} for i in range(k)]
    out += [{"nside": n, "big": True} for n in (50, 64, 100, 128, 255, 256, 512, 1000, 1023, 1024, 1025,
                                                2048, 4096, 8192)]
    return out


def star(ns, p):
    """Diamond indices of one pixel, from the definition of the pixelisation."""
    lo, hi = 1, 4*ns - 1
    while lo < hi:
        mid = (lo + hi + 1)//2
        if ring_start(ns, mid)[0] <= p:
            lo = mid
        else:
            hi = mid - 1
    x, y = plane_ring(ns, lo, p - ring_start(ns, lo)[0] + 1)[:2]
    u = 2*ns/np.pi
    return int(np.rint(x*u - y*u + ns/2. - 0.5)), int(np.rint(x*u + y*u + ns/2. - 0.5))


def big(ns, rec, M):
    for i in rings(ns):
        s, m = ring_start(ns, i)
        for q in sorted({0, 1, 2, m//4 - 1, m//4, m//4 + 1, m//2 - 1, m//2, 3*m//4 - 1, 3*m//4, m - 2,
                         m - 1}):
            if not 0 <= q < m:
                continue
            p = s + q
            key = {"nside": ns, "pix": p}
            want = sorted({star(ns, int(r)) for r in hp.get_all_neighbours(ns, p) if r >= 0})
            a = star(ns, p)
            with rec.case(key):
                for arg in (a, (np.int64(a[0]), np.int64(a[1]))):
                    g = rec.call(M.pixel.healpix_ijs_neighbours, arg[0], arg[1], ns)
                    pairs = list(zip(*(np.asarray(v, float).tolist() for v in g)))
                    rec.check(sorted(pairs) == want, key, "neighbours of the pixel", got=pairs, want=want)
                rec.outcome(*g)


def stars(ns):
    """Diamond indices of every pixel, from healpy's own centres."""
    p = np.arange(12*ns*ns)
    th, ph = hp.pix2ang(ns, p)
    z = np.cos(th)
    x, y = ph.copy(), 3*np.pi/8*z
    c = np.abs(z) > 2./3. + 1e-12
    s = np.sqrt(3*(1 - np.abs(z[c])))
    k = np.floor(ph[c]/(np.pi/2))
    m = (k + 0.5)*np.pi/2
    x[c] = m + s*(ph[c] - m)
    y[c] = np.sign(z[c])*np.pi/4*(2 - s)
    u = 2*ns/np.pi
    i = x*u - y*u + ns/2. - 0.5
    j = x*u + y*u + ns/2. - 0.5
    return np.rint(i).astype(int), np.rint(j).astype(int)


def run(sh, rec, M):
    P, ns = M.pixel, sh["nside"]
    if sh.get("big"):
        return big(ns, rec, M)
    I, J = stars(ns)
    look = {(a, b): p for p, (a, b) in enumerate(zip(I.tolist(), J.tolist()))}
    rec.check(len(look) == 12*ns*ns, {"nside": ns}, "reference indices not unique")
    for p in range(sh["lo"], sh["hi"]):
        key = {"nside": ns, "pix": p}
        nb = hp.get_all_neighbours(ns, p)
        want = sorted(set(int(q) for q in nb if q >= 0))
        with rec.case(key):
            arg = (I[p], J[p]) if p % 3 else (int(I[p]), int(J[p]))
            a, b = rec.call(P.healpix_ijs_neighbours, arg[0], arg[1], ns)
            a, b = np.asarray(a, float), np.asarray(b, float)
            rec.outcome(a, b)
            rec.check(a.shape == b.shape and a.ndim == 1, key, "shape of the neighbours")
            pairs = [(int(u), int(v)) for u, v in zip(a, b)]
            rec.check(all(u == int(u) and v == int(v) for u, v in zip(a, b)), key,
                      "fractional indices", got=[a, b])
            rec.check(len(set(pairs)) == len(pairs), key, "a neighbour is listed twice", got=pairs)
            got = sorted(look[q] for q in pairs if q in look)
            stray = [q for q in pairs if q not in look]
            if ns == 1 and 4 <= p <= 7 and got == want and len(stray) == 1:
                rec.finding("neighbours_nside1", "nside 1 equatorial pixel: a neighbour is no pixel")
                continue
            rec.check(got == want and not stray, key, "neighbours of the pixel",
                      got=got, want=want, no_pixel=stray)
