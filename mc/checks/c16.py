"""C16: densities, cumulative distributions and sampling by inversion."""
import itertools

import numpy as np

from mc import rng
from mc.core import close

SRC = False
MAPS = False
BOUNDS = {
    "quick": "every density with values in {0, 1, 2.5, 4} on 2..5 bins (not all zero) x 4 grids; "
             "sampling of every strictly positive one (values 1, 2.5, 4) for the kinds linear, "
             "nearest, previous, next, zero, slinear, quadratic, cubic: every knot, 0, 1-2^-53 and, for "
             "linear, 24 equally likely answers; 10 densities of 2..1000 bins scaled by 1e-200..1e200 on "
             "bins of width 1e-12..1e12, compared relative to their own scale",
    "thorough": "up to 7 bins and 200 answers",
}
ASSUMPTIONS = ["equally spaced bins, non-negative finite densities with positive total",
               "spline kinds are only required to be exact at the knots and for constant "
               "densities; kinds of order k need k+1 knots"]
GRIDS = [(0.5, 1.), (-3., 0.25), (100., 7.), (0., 1e-3)]
NEED = {"linear": 2, "nearest": 2, "previous": 2, "next": 2, "zero": 2, "slinear": 2,
        "quadratic": 3, "cubic": 4}


def shards(tier):
    out = []
    for n in range(2, 6 if tier == "quick" else 8):
        for g in GRIDS:
            for first in (0., 1., 2.5, 4.):
                out.append({"n": n, "grid": g, "first": first,
                            "U": 24 if tier == "quick" else 200})
    out += [{"scale": s} for s in SCALES]
    return out


SCALES = (1e-200, 1e-100, 1e-30, 1e-16, 1e-13, 1e-9, 1e-5, 0.3, 1e4, 1e9, 1e16, 1e100, 1e200)


def rel(a, b, scale=None, tol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol*(np.abs(b) if scale is None else scale)))


def scaled(sh, rec, R):
    """Every density of a list at one scale, on bins of every width: all relative."""
    fs = [[1., 2.], [2., 1., 1.], [1., 0., 3.], [1., 1e-9, 1., 2.], [1., 1e9, 2.], [5., 1e-14, 1.]]
    fs += [1. + np.arange(n) % 7 for n in (50, 200, 257, 1000)]
    for i, f in enumerate(fs):
        for dx in (1e-12, 1e-7, 1., 1e12):
            for first in (0., 1., -40.):
                n = len(f)
                pdf = np.array(f)*sh["scale"]
                xmid = dx*(first + np.arange(n))
                key = {"density": i, "scale": sh["scale"], "xmid": [dx*first, dx], "n": n}
                tot = np.sum(np.array(f))
                wc = np.concatenate([[0.], np.cumsum(f)/tot])
                we = dx*(first - 0.5 + np.arange(n + 1))
                with rec.case(key):
                    x, c, q = rec.call(R.pdf2cdf, xmid, pdf)
                    rec.outcome(c)
                    rec.check(rel(x, we, dx*(n + 40)), key, "edges")
                    rec.check(rel(c, wc, tol=1e-12) and c[0] == 0. and c[-1] == 1., key,
                              "cumulative distribution", got=np.asarray(c)[:5], want=wc[:5])
                    rec.check(rel(q, np.array(f)/tot/dx), key, "normalised density", got=np.asarray(q)[:5])
                    out = rec.call(R.pdf2cdf, xmid, pdf, return_normpdf=False)
                    rec.check(len(out) == 2 and rel(out[1], wc, tol=1e-12), key, "without the density")
                    u = np.array(rng.mid(40 if n < 100 else 600))
                    r, used = rng.scripted(lambda: rec.call(R.randoms_pdf, xmid, pdf, len(u), kind="linear"),
                                           u)
                    safe = np.min(np.abs(u[:, None] - wc[None, :]), axis=1) > 1e-9
                    # a bin of share s spreads an error of 1e-16 in the answer over its width
                    k = np.clip(np.searchsorted(wc, u, side="right") - 1, 0, n - 1)
                    w = we[k] + (u - wc[k])/(wc[k + 1] - wc[k])*(we[k + 1] - we[k])
                    err = np.abs(r - w) if np.shape(r) == w.shape else np.full(w.shape, np.inf)
                    tol = dx*(1e-9*(n + 40) + 1e-13/np.diff(wc)[k])
                    rec.check(bool(np.all((err <= tol)[safe])), key, "samples", got=r[:4], want=w[:4])
                    rec.outcome(r)


def run(sh, rec, M):
    R = M.randoms
    if "scale" in sh:
        return scaled(sh, rec, R)
    n, (x0, dx) = sh["n"], sh["grid"]
    xmid = x0 + dx*np.arange(n)
    edges = x0 - 0.5*dx + dx*np.arange(n + 1)
    tol = 1e-9*(dx + abs(x0)*1e-3)
    for rest in itertools.product((0., 1., 2.5, 4.), repeat=n - 1):
        pdf = np.array((sh["first"],) + rest)
        if pdf.sum() == 0.:
            continue
        key = {"xmid": [x0, dx], "pdf": pdf}
        wcdf = np.concatenate([[0.], np.cumsum(pdf)/pdf.sum()])
        wnorm = pdf/(pdf.sum()*dx)
        with rec.case(key):
            for kw in ({}, {"return_normpdf": True}):
                out = rec.call(R.pdf2cdf, xmid, pdf, **kw)
                rec.check(len(out) == 3 and close(out[0], edges) and close(out[1], wcdf) and
                          close(out[2], wnorm), key, "edges, cdf or normalised density wrong",
                          got=[np.asarray(o) for o in out])
            rec.outcome(out[1])
            out2 = rec.call(R.pdf2cdf, xmid, pdf, return_normpdf=False)
            rec.check(len(out2) == 2 and close(out2[0], edges) and close(out2[1], wcdf), key,
                      "edges or cdf wrong without the density")
            x, cdf = out2
            rec.check(cdf[0] == 0. and cdf[-1] == 1., key, "cdf does not run from 0 to 1")
        lin = np.array(rng.mid(sh["U"]))
        pos = bool(np.all(pdf > 0.))
        kinds = [k for k in NEED if n + 1 >= NEED[k]] if pos else ["linear"]
        for kind in kinds:
            k2 = dict(key, kind=kind)
            with rec.case(k2):
                if kind == "linear":
                    r, _ = rng.scripted(lambda: rec.call(R.randoms_pdf, xmid, pdf, len(lin),
                                                         kind=kind), lin)
                    safe = np.min(np.abs(lin[:, None] - wcdf[None, :]), axis=1) > 1e-9
                    w = np.interp(lin, *(np.array(v) for v in
                                         zip(*[(c, e) for c, e in zip(wcdf, edges)]))) \
                        if pos else invert(lin, wcdf, edges)
                    rec.check(np.shape(r) == lin.shape and bool(np.all(
                        np.abs(r - w)[safe] <= 1e-8*dx + 1e-12*abs(x0))), k2,
                        "sample is not the inverse of the cumulative distribution",
                        got=r, want=w)
                    rec.outcome(r)
                    # histogram: each bin receives its share of equally likely answers
                    if pos:
                        r0, _ = rng.scripted(lambda: rec.call(
                            R.randoms_cdf, edges, wcdf, len(lin), kind=kind), lin)
                        rec.check(close(r0, r), k2, "sampling the cdf and the density differ")
                if pos and kind not in ("nearest",):
                    u = np.concatenate([np.asarray(cdf)[:-1], [rng.ALMOST1]])
                    r, _ = rng.scripted(lambda: rec.call(R.randoms_cdf, x, cdf, len(u), kind=kind),
                                        u)
                    want = np.array(x)
                    if kind in ("previous", "zero"):
                        want = np.concatenate([x[:-1], [x[-2]]])
                    rec.check(np.shape(r) == u.shape and bool(np.all(np.abs(r - want) <=
                                                                     1e-7*dx + 1e-11*abs(x0))),
                              k2, "sample at a knot of the cdf is not its position", got=r,
                              want=want)
                    rec.outcome(r)
                if pos and np.all(pdf == pdf[0]) and kind in ("linear", "slinear", "quadratic", "cubic"):
                    r, _ = rng.scripted(lambda: rec.call(R.randoms_pdf, xmid, pdf, len(lin),
                                                         kind=kind), lin)
                    w = edges[0] + lin*(edges[-1] - edges[0])
                    rec.check(bool(np.all(np.abs(r - w) <= 1e-7*dx + 1e-11*abs(x0))), k2,
                              "constant density is not sampled evenly")
                    r, _ = rng.scripted(lambda: rec.call(R.randoms_pdf, xmid, pdf, len(lin)), lin) \
                        if n + 1 >= 4 else (r, 0)
                    rec.check(bool(np.all(np.abs(r - w) <= 1e-7*dx + 1e-11*abs(x0))), k2,
                              "constant density is not sampled evenly by default")
                for size in (0, 1, 3):
                    r, _ = rng.scripted(lambda: rec.call(R.randoms_pdf, xmid, pdf, size,
                                                         kind=kind), lin[:size])
                    rec.check(np.shape(r) == (size,), k2, "size %d" % size)
        with rec.case(dict(key, bad="cdf")):
            for bad in (wcdf*0.9, wcdf*0.9 + 0.1):
                try:
                    rec.call(R.randoms_cdf, edges, bad, 2, kind="linear")
                    ok = False
                except Exception:
                    ok = True
                rec.check(ok, dict(key, cdf=bad), "a cdf not running from 0 to 1 is accepted")


def invert(u, cdf, edges):
    out = np.zeros(len(u))
    for i, v in enumerate(u):
        j = max(k for k in range(len(cdf) - 1) if cdf[k] <= v and cdf[k + 1] > cdf[k]) \
            if v >= 0 else 0
        out[i] = edges[j] + (v - cdf[j])/(cdf[j + 1] - cdf[j])*(edges[j + 1] - edges[j])
    return out
