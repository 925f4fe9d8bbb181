"""C07: HEALPix pixel centres and outlines in the HEALPix plane."""
import healpy as hp
import numpy as np

SRC = False
MAPS = False
BOUNDS = {
    "quick": "every pixel of nside 1..8, 11, 16, 32 (centres also 64); outlines with 4..60 points, top "
             "and bottom with 2..30 points, both directions, for every pixel of nside 1..6 and "
             "ring-corner pixels of nside 8, 11, 32, 100, 1000, 1024, 4096, 2^20; centres (single "
             "and array) of every ring-corner pixel of 19 rings of nside 100, 128, 255, 256, 512, "
             "1000, 1023, 1024, 1025, 2048, 4096, 8192, 2^16, 2^20",
    "thorough": "centres of every pixel of nside 1..40, 64, 100, 128; outlines of every pixel of nside 1..12",
}
ASSUMPTIONS = ["centres and membership: healpy, RING ordering; abscissae are compared modulo 2 pi"]
from mc.checks.c06 import ring_start

PI = np.pi


BIG = (100, 128, 255, 256, 512, 1000, 1023, 1024, 1025, 2048, 4096, 8192, 2**16, 2**20)


def shards(tier):
    cen = list(range(1, 9)) + [11, 16, 32, 64]
    full = list(range(1, 7))
    if tier != "quick":
        cen = list(range(1, 41)) + [64, 100, 128]
        full = list(range(1, 13))
    out = [{"kind": "centre", "nside": ns} for ns in cen]
    for ns in full:
        n = 12*ns*ns
        for a in range(0, n, 48):
            out.append({"kind": "outline", "nside": ns, "pix": list(range(a, min(n, a + 48)))})
    out += [{"kind": "big", "nside": ns} for ns in BIG]
    for ns in (8, 11, 32, 100, 1000, 1024, 4096, 2**20):
        ps = set()
        for ring in {1, 2, ns - 1, ns, ns + 1, 2*ns, 3*ns - 1, 3*ns, 3*ns + 1, 4*ns - 1}:
            s, m = ring_start(ns, ring)
            ps |= {s, s + m//4 - 1, s + m//4, s + m - 1, s + m//2}
        ps = sorted(ps)
        for a in range(0, len(ps), 12):
            out.append({"kind": "outline", "nside": ns, "pix": ps[a:a + 12]})
    return out


def plane_ring(ns, i, j):
    """Reference plane position and angles of position j of ring i (both 1-based), from the
    definition of the pixelisation: exact for every nside."""
    if ns <= i <= 3*ns:
        ph = (j - 1 + 0.5*((i - ns + 1) % 2))*PI/(2*ns)
        z = (2*ns - i)/(1.5*ns)
        return ph, (2*ns - i)*PI/(4*ns), ph, np.arccos(z)
    k = min(i, 4*ns - i)
    sg = 1. if i < ns else -1.
    ph = (j - 0.5)*PI/(2*k)
    c = ((j - 1)//k + 0.5)*PI/2
    th = 2*np.arcsin(k/ns/np.sqrt(6.))
    return (c + (ph - c)*k/ns, sg*PI/4*(2 - k/ns), ph, th if sg > 0 else PI - th)


def plane(ns, p):
    """Reference plane position of pixel centres, from healpy angles."""
    if ns >= 64:
        i = next(k for k in rings(ns) if ring_start(ns, k)[0] <= p < sum(ring_start(ns, k)))
        return plane_ring(ns, i, p - ring_start(ns, i)[0] + 1)[:2]
    return plane_ang(ns, p)


def plane_ang(ns, p):
    th, ph = hp.pix2ang(ns, p)
    z = np.cos(th)
    if abs(z) <= 2./3.:
        return ph, 3*PI/8*z
    s = np.sqrt(3*(1 - abs(z)))
    k = np.floor(ph/(PI/2))
    return (k + 0.5)*PI/2 + s*(ph - (k + 0.5)*PI/2), np.sign(z)*PI/4*(2 - s)


def rings(ns):
    return sorted(i for i in {1, 2, 3, 5, ns//2, ns - 2, ns - 1, ns, ns + 1, ns + 2, 2*ns - 1, 2*ns,
                              2*ns + 1, 3*ns - 1, 3*ns, 3*ns + 1, 3*ns + ns//2, 4*ns - 2,
                              4*ns - 1} if 1 <= i < 4*ns)


def big(ns, rec, M):
    P = M.pixel
    ps, want = [], []
    for i in rings(ns):
        s, m = ring_start(ns, i)
        for q in sorted({0, 1, m//4 - 1, m//4, m//2 - 1, m//2, 3*m//4, m - 2, m - 1}):
            if 0 <= q < m:
                ps.append(s + q)
                want.append(plane_ring(ns, i, q + 1))
    want = np.array(want)
    pa = np.array(ps)
    key = {"nside": ns, "array": len(ps)}
    if ns <= 8192:
        t2, p2 = hp.pix2ang(ns, pa)
        rec.check(np.abs(t2 - want[:, 3]).max() < 1e-7 and np.abs(p2 - want[:, 2]).max() < 1e-9, key,
                  "reference centres differ from healpy")
    with rec.case(key):
        x, y = rec.call(P.healpix_pix2xy, pa, ns)
        rec.outcome(x, y)
        ok = np.shape(x) == pa.shape and np.shape(y) == pa.shape
        d = np.abs((x - want[:, 0] + PI) % (2*PI) - PI) + np.abs(y - want[:, 1]) if ok else 0.
        rec.check(ok and float(np.max(d)) < 1e-7/ns + 1e-14, key, "pixel centres", error=np.max(d))
        rec.check(bool(np.all((x >= -1e-12) & (x < 2*PI + 1e-12))), key, "abscissa outside [0, 2 pi)")
        i, j = P.healpix_pix2ij(pa, ns)
        x2, y2 = rec.call(P.healpix_ij2xy, i, j, ns)
        rec.check(np.array_equal(x2, x) and np.array_equal(y2, y), key, "two ways to a centre")
        ph, th = rec.call(M.coords.healpix_xy2ang, x, y)
        d = np.abs((ph - want[:, 2] + PI) % (2*PI) - PI)*np.sin(want[:, 3]) + np.abs(th - want[:, 3])
        rec.check(float(np.max(d)) < 1e-7, key, "pixel centres on the sphere", error=np.max(d))
    for n, p in enumerate(ps):
        key = {"nside": ns, "pix": p}
        with rec.case(key):
            for q in (p, np.int64(p)):
                a, b = rec.call(P.healpix_pix2xy, q, ns)
                d = abs((a - want[n, 0] + PI) % (2*PI) - PI) + abs(b - want[n, 1])
                rec.check(np.ndim(a) == 0 and d < 1e-7/ns + 1e-14, key, "single pixel centre", got=[a, b],
                          want=want[n, :2])
            if n % 7 == 0:
                rec.outcome(a, b)


def to_ang(x, y):
    """Reference inverse of the plane projection (points of the valid region)."""
    x = x % (2*PI)
    if abs(y) <= PI/4:
        return x, np.arccos(8*y/(3*PI))
    s = 2 - 4*abs(y)/PI
    k = np.floor(x/(PI/2))
    c = (k + 0.5)*PI/2
    return c + (x - c)/s, np.arccos(np.sign(y)*(1 - s*s/3))


def run(sh, rec, M):
    P, ns = M.pixel, sh["nside"]
    if sh["kind"] == "big":
        return big(ns, rec, M)
    if sh["kind"] == "centre":
        n = 12*ns*ns
        ps = np.arange(n)
        want = np.array([plane_ang(ns, p) for p in range(n)])
        ref = np.array([plane_ring(ns, i, q + 1)[:2] for i in range(1, 4*ns)
                        for q in range(ring_start(ns, i)[1])])
        rec.check(float(np.abs(ref - want).max()) < 1e-6, {"nside": ns}, "two references differ")
        key = {"nside": ns, "array": True}
        with rec.case(key):
            x, y = rec.call(P.healpix_pix2xy, ps, ns)
            rec.outcome(x, y)
            d = np.abs((x - want[:, 0] + PI) % (2*PI) - PI) + np.abs(y - want[:, 1])
            bad = np.where(~(d < 1e-7))[0]
            rec.check(len(x) == n and not len(bad), key, "pixel centres", pixel=bad[:3])
            rec.check(bool(np.all((x >= -1e-12) & (x < 2*PI + 1e-12))), key, "abscissa outside [0, 2 pi)")
            ph, th = rec.call(M.coords.healpix_xy2ang, x, y)
            t2, p2 = hp.pix2ang(ns, ps)
            d = np.abs((ph - p2 + PI) % (2*PI) - PI)*np.sin(t2) + np.abs(th - t2)
            bad = np.where(~(d < 1e-7))[0]
            rec.check(not len(bad), key, "pixel centres on the sphere", pixel=bad[:3])
            i, j = P.healpix_pix2ij(ps, ns)
            x2, y2 = rec.call(P.healpix_ij2xy, i, j, ns)
            rec.check(np.array_equal(x2, x) and np.array_equal(y2, y), key, "two ways to a centre")
        for p in range(n):
            if ns > 8 and p % 5:
                continue
            key = {"nside": ns, "pix": p}
            with rec.case(key):
                a, b = rec.call(P.healpix_pix2xy, p, ns)
                rec.check(abs(a - x[p]) < 1e-12 and abs(b - y[p]) < 1e-12, key,
                          "single and array centre differ", got=[a, b])
        return
    delta = PI/(4*ns)
    for p in sh["pix"]:
        xp, yp = plane(ns, p)
        key0 = {"nside": ns, "pix": p}

        def on_edge(x, y, key):
            u = np.abs((x - xp + PI) % (2*PI) - PI) + np.abs(y - yp)
            rec.check(float(np.max(np.abs(u - delta))) < 1e-7*delta + 1e-12 if len(u) else True,
                      key, "point off the outline", got=u/delta)

        def corners(n):
            """Even walk along one side."""
            return np.linspace(0., 1., n)
        L, T, R, B = np.array([-1., 0.]), np.array([0., 1.]), np.array([1., 0.]), np.array([0., -1.])

        def side(a, b, n):
            return np.array([a + (b - a)*t for t in corners(n)]).reshape(-1, 2)
        for steps in [4, 5, 6, 7] + list(range(8, 61, 4)) + [None]:
            for rev in (None, False, True):
                key = dict(key0, outline=steps, reverse=rev)
                kw = {} if steps is None else {"steps": steps}
                if rev is not None:
                    kw["reverse"] = rev
                st = steps or 40
                with rec.case(key):
                    x, y = rec.call(P.healpix_boundary, p, ns, **kw)
                    rec.check(np.shape(x) == (st,) and np.shape(y) == (st,), key, "number of points")
                    on_edge(x, y, key)
                    rec.outcome(x, y)
                    if st % 4 == 0 and st >= 8:
                        n = st//4
                        w = np.concatenate([side(L, T, n), side(T, R, n), side(R, B, n), side(B, L, n)])
                        if rev:
                            w = w[::-1]
                        g = np.array([((x - xp + PI) % (2*PI) - PI)/delta, (y - yp)/delta]).T
                        rec.check(float(np.abs(g - w).max()) < 1e-6, key,
                                  "outline is not walked clockwise from the left corner")
                        if steps in (8, 12, 40) and ns <= 1024:
                            for q in range(len(x)):
                                gx, gy = g[q]*delta
                                a, t = to_ang(xp + 0.999*gx, yp + 0.999*gy)
                                rec.check(hp.ang2pix(ns, t, a) == p, key,
                                          "just inside the outline is another pixel")
        for name, fn, c in (("top", P.healpix_boundary_top, T), ("bot", P.healpix_boundary_bot, B)):
            for steps in [2, 3] + list(range(4, 31, 2)) + [None]:
                for rev in (None, False, True):
                    key = dict(key0, part=name, steps=steps, reverse=rev)
                    kw = {} if steps is None else {"steps": steps}
                    if rev is not None:
                        kw["reverse"] = rev
                    st = steps or 20
                    with rec.case(key):
                        x, y = rec.call(fn, p, ns, **kw)
                        rec.check(np.shape(x) == (st,) and np.shape(y) == (st,), key, "number of points")
                        on_edge(x, y, key)
                        s = 1. if name == "top" else -1.
                        rec.check(bool(np.all(s*(y - yp) > -1e-9*delta - 1e-12)), key, "wrong half")
                        d = np.diff((x - xp + PI) % (2*PI) - PI)
                        rec.check(bool(np.all((-d if rev else d) > -1e-9)), key, "wrong direction")
                        if st % 2 == 0 and st >= 4:
                            w = np.concatenate([side(L, c, st//2), side(c, R, st//2)])
                            w = w[::-1] if rev else w
                            g = np.array([((x - xp + PI) % (2*PI) - PI)/delta, (y - yp)/delta]).T
                            rec.check(float(np.abs(g - w).max()) < 1e-6, key, "points of the half outline")
