"""C06: HEALPix pixel index <-> (ring, position) <-> diamond indices."""
import healpy as hp
import numpy as np

SRC = False
MAPS = False
BOUNDS = {
    "quick": "every pixel of nside 1..16, 20, 32, 50, 64 (scalar and array calls); first, last, quarter and "
             "neighbouring pixels of every 1st..5th, cap-edge and middle ring for nside 100, "
             "128, 1000, 1024, 4096, 2^16, 2^20",
    "thorough": "every pixel of nside 1..64, 100, 128, 256",
}
ASSUMPTIONS = ["ring layout reference: healpy.pix2ang, RING ordering"]


def shards(tier):
    full = list(range(1, 17)) + [20, 32, 50, 64]
    if tier != "quick":
        full = list(range(1, 65)) + [100, 128, 256]
    out = []
    for ns in full:
        n = 12*ns*ns
        step = max(1, n//4000)
        out += [{"nside": ns, "lo": n*k//step, "hi": n*(k + 1)//step} for k in range(step)]
    out += [{"nside": ns, "edge": True} for ns in (100, 128, 1000, 1024, 4096, 2**16, 2**20)]
    return out


def ring_start(ns, i):
    """First pixel and length of ring i (1-based), in integers."""
    if i <= ns:
        return 2*i*(i - 1), 4*i
    if i < 3*ns:
        return 2*ns*(ns - 1) + 4*ns*(i - ns), 4*ns
    k = 4*ns - i
    return 12*ns*ns - 2*k*(k + 1), 4*k


def run(sh, rec, M):
    P = M.pixel
    ns = sh["nside"]
    if sh.get("edge"):
        rings = {1, 2, 3, 4, 5, ns//2, ns - 1, ns, ns + 1, ns + 2, 2*ns - 1, 2*ns, 2*ns + 1,
                 3*ns - 1, 3*ns, 3*ns + 1, 3*ns + ns//2, 4*ns - 1, 4*ns - 2, 4*ns - 3, 4*ns - 5}
        ps = set()
        for i in rings:
            s, m = ring_start(ns, i)
            for q in (0, 1, m//4 - 1, m//4, m//2 - 1, m//2, 3*m//4, m - 2, m - 1):
                if 0 <= q < m:
                    ps.add(s + q)
        ps = sorted(ps)
    else:
        ps = list(range(sh["lo"], sh["hi"]))
    # reference
    import bisect
    starts = None
    if not sh.get("edge"):
        starts = [ring_start(ns, i)[0] for i in range(1, 4*ns)]
        th = np.round(hp.pix2ang(ns, np.arange(12*ns*ns))[0], 12)
        rs = np.concatenate([[0], 1 + np.where(np.diff(th) != 0.)[0]])
        rec.check(starts == rs.tolist(), {"nside": ns},
                  "reference ring layout differs from healpy")
        ref = [(bisect.bisect_right(starts, p), ) for p in ps]
        ref = [(i, p - starts[i - 1] + 1) for (i,), p in zip(ref, ps)]
    else:
        ref = []
        for p in ps:
            lo, hi = 1, 4*ns - 1
            while lo < hi:
                mid = (lo + hi + 1)//2
                if ring_start(ns, mid)[0] <= p:
                    lo = mid
                else:
                    hi = mid - 1
            ref.append((lo, p - ring_start(ns, lo)[0] + 1))
    ri = np.array([r[0] for r in ref])
    rj = np.array([r[1] for r in ref])
    pa = np.array(ps)
    key = {"nside": ns, "array": [ps[0], ps[-1]]}
    with rec.case(key):
        i, j = rec.call(P.healpix_pix2ij, pa, ns)
        rec.outcome(i, j)
        bad = np.where((i != ri) | (j != rj))[0]
        rec.check(np.shape(i) == ri.shape and not len(bad), key, "ring and position of a pixel",
                  pixel=pa[bad[:3]])
        q = rec.call(P.healpix_ij2pix, ri, rj, ns)
        bad = np.where(np.asarray(q) != pa)[0]
        rec.check(np.shape(q) == pa.shape and not len(bad), key, "pixel of a ring and position",
                  pixel=pa[bad[:3]])
        rec.check(np.asarray(q).dtype.kind == "i" and np.asarray(i).dtype.kind == "i" and
                  np.asarray(j).dtype.kind == "i", key, "indices are not integers")
        # order independence
        q = rec.call(P.healpix_pix2ij, pa[::-1].copy(), ns)
        rec.check(np.array_equal(q[0][::-1], ri) and np.array_equal(q[1][::-1], rj), key,
                  "result depends on the order of the pixels")
        jd = np.asarray(rec.call(P.healpix_j2jd, ri, rj, ns))
        ida = np.asarray(rec.call(P.healpix_i2id, ri, ns))
        rec.check(bool(np.all(ida == ns - ri/2.)), key, "vertical index")
        si, sj = rec.call(P.healpix_ijd2ijs, ida, jd, ns)
        rec.check(len(set(zip(si.tolist(), sj.tolist()))) == len(ps), key,
                  "two pixels share diamond indices")
        bi, bj = rec.call(P.healpix_ijs2ijd, si, sj, ns)
        rec.check(np.array_equal(bi, ida) and np.array_equal(bj, jd), key,
                  "diamond indices do not convert back")
        # the diamond indices are those of the rotated unit cells of the plane
        wi, wj = jd - ida + ns/2. - 0.5, jd + ida + ns/2. - 0.5
        rec.check(np.array_equal(si, wi) and np.array_equal(sj, wj), key, "diamond indices")
        if not sh.get("edge") and sh["lo"] == 0 and sh["hi"] == 12*ns*ns:
            rec.check(len(set(zip(si.tolist(), sj.tolist()))) == 12*ns*ns, key, "not a bijection")
    for n, p in enumerate(ps):
        key = {"nside": ns, "pix": p}
        with rec.case(key):
            for arg in ((p, np.int64(p)) if n % 7 == 0 else (p,)):
                i, j = rec.call(P.healpix_pix2ij, arg, ns)
                rec.check(i == ri[n] and j == rj[n] and np.ndim(i) == 0, key,
                          "ring and position of a single pixel", got=[i, j])
            q = rec.call(P.healpix_ij2pix, int(ri[n]), int(rj[n]), ns)
            rec.check(q == p and np.ndim(q) == 0, key, "pixel of a single ring and position", got=q)
            d = rec.call(P.healpix_j2jd, int(ri[n]), int(rj[n]), ns)
            rec.check(d == jd[n], key, "single and array horizontal index differ", got=d)
            e = rec.call(P.healpix_i2id, int(ri[n]), ns)
            rec.check(e == ida[n], key, "single and array vertical index differ", got=e)
            if n % 11 == 0:
                rec.outcome(i, j, d, e)
