"""C21: areas of polar cells, radial means with errors, cumulative profiles."""
import itertools

import numpy as np

from mc.core import close

SRC = False
MAPS = False
BOUNDS = {
    "quick": "polar grids with every uneven radial edge set over steps {0.5, 1, 3} of 1..4 bins, "
             "3 inner radii, 1..5 angular cells over 4 ranges; fields 1..4 x 1..3 cells with "
             "every value in {0, 1, -2.5} on up to 6 cells, every weight pattern in {0, 1, 2.5} "
             "on up to 6 cells, with and without errors; 14 x 8 larger shapes up to 1000 x 500 with fields, "
             "weights and errors of scale 1e-30..1e30; profiles of up to 5000 bins; NaN and infinite "
             "cells at every position of 3 x 4, one per column of larger grids",
    "thorough": "up to 8 cells and 5 radial bins",
}
ASSUMPTIONS = ["weights are non-negative; a radial bin without weight gives NaN"]


def shards(tier):
    t = tier == "thorough"
    out = [{"kind": "area", "n": n} for n in range(1, 6 if t else 5)]
    lim = 8 if t else 6
    for a in range(1, 5):
        for b in range(1, 4):
            out.append({"kind": "radial", "shape": [a, b], "lim": lim})
    out += [{"kind": "cum", "n": n} for n in range(1, 6 if t else 5)]
    out += [{"kind": "large", "na": n} for n in (1, 2, 7, 16, 63, 64, 65, 100, 128, 200, 257, 300, 500, 1000)]
    out += [{"kind": "special"}]
    return out


def rel(a, b, tol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(invalid="ignore"):
        return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol*np.abs(b)) | (a == b) |
                                                  (np.isnan(a) & np.isnan(b))))


def values(n, k, lo=0.2):
    """n positive values, all different in size."""
    return lo + ((np.arange(n)*(2*k + 7) + 3*k) % 101)/50.


def large(sh, rec, P):
    na = sh["na"]
    for nr in (1, 2, 10, 63, 64, 65, 200, 500):
        re, pe = 0.3 + np.cumsum(values(nr + 1, 1)), np.linspace(0.1, 3., na + 1)
        key = {"na": na, "nr": nr, "area": True}
        area = 0.5*np.diff(re**2)[None, :]*(pe[1] - pe[0])*np.ones((na, 1))
        with rec.case(key):
            a = rec.call(P.get_polar_area2d, re, pe)
            rec.outcome(a)
            rec.check(rel(a, area), key, "cell areas")
        f, w, s = [values(na*nr, k).reshape(na, nr) for k in (1, 2, 3)]
        for sf, sw, ss in ((1., 1., 1.), (1e-30, 1., 1.), (1., 1e-30, 1e-12), (1e30, 1e20, 1e30), (-1e-9, 1e9, 1e-9)):
            for usew, uses in itertools.product((False, True), repeat=2):
                key = {"na": na, "nr": nr, "scales": [sf, sw, ss], "w": usew, "sigma": uses}
                W = w*sw if usew else np.ones((na, nr))
                kw = dict({"w": w*sw} if usew else {}, **({"sigma": s*ss} if uses else {}))
                with rec.case(key):
                    o = rec.call(P.polar2radial, f*sf, area, 0.37, **kw)
                    o = o if uses else (o,)
                    rec.outcome(*o)
                    rec.check(rel(o[0], np.sum(W*f*sf, axis=0)/np.sum(W, axis=0)), key, "radial mean")
                    if uses:
                        rec.check(rel(o[1], np.sqrt(np.sum(0.37/area*(W*s*ss)**2, axis=0))/np.sum(W, axis=0)),
                                  key, "radial error")
    for sc in (1., 1e-25, 1e25):
        n = 5*na
        re, f, s = 0.3 + np.cumsum(values(n + 1, 4)), values(n, 5)*sc, values(n, 6)*sc
        key = {"profile": n, "scale": sc}
        with rec.case(key):
            A = np.pi*np.diff(re**2)
            want = np.concatenate([[0.], np.cumsum(A*f)])
            ws = np.sqrt(np.concatenate([[0.], np.cumsum((A*s)**2)]))
            rec.check(rel(rec.call(P.cumulative_radial, re, f), want), key, "cumulative profile")
            c = rec.call(P.cumulative_radial, re, f, sigma=s)
            rec.outcome(*c)
            rec.check(rel(c[0], want) and rel(c[1], ws), key, "cumulative profile with errors")


def special(rec, P):
    """A NaN or infinite cell reaches the results it belongs to and no others."""
    for na, nr in ((3, 4), (1, 3), (70, 5), (4, 70)):
        f, w, s = [values(na*nr, k).reshape(na, nr) for k in (1, 2, 3)]
        area = 1. + np.arange(nr)[None, :] + np.zeros((na, 1))
        cells = [(i, j) for i in range(na) for j in range(nr) if na*nr < 20 or (i + j) % 9 == 0]
        for (i, j), bad, where in itertools.product(cells, (np.nan, np.inf, -np.inf), ("f", "sigma", "w")):
            if where == "w" and not np.isnan(bad):
                continue
            g = {"f": f.copy(), "sigma": s.copy(), "w": w.copy()}
            g[where][i, j] = bad
            for usew in ((True,) if where == "w" else (False, True)):
                key = {"shape": [na, nr], "cell": [i, j], "bad": str(bad), "in": where, "w": usew}
                W = g["w"] if usew else np.ones((na, nr))
                with rec.case(key), np.errstate(all="ignore"):
                    o = rec.call(P.polar2radial, g["f"], area, 0.37, sigma=g["sigma"], **({"w": W} if usew else {}))
                    rec.outcome(*o)
                    m = np.sum(W*g["f"], axis=0)/np.sum(W, axis=0)
                    e = np.sqrt(np.sum(0.37/area*(W*g["sigma"])**2, axis=0))/np.sum(W, axis=0)
                    rec.check(rel(o[0], m), key, "radial mean", got=o[0], want=m)
                    rec.check(rel(o[1], e), key, "radial error", got=o[1], want=e)
                    if where == "f" and not usew:
                        rec.check(rel(rec.call(P.polar2radial, g["f"], area, 0.37), m), key, "radial mean alone")
    for n in (1, 2, 4, 30):
        re, f, s = 0.3 + np.cumsum(values(n + 1, 4)), values(n, 5), values(n, 6)
        A = np.pi*np.diff(re**2)
        for k, bad, where in itertools.product(range(n), (np.nan, np.inf, -np.inf), ("f", "sigma")):
            g = {"f": f.copy(), "sigma": s.copy()}
            g[where][k] = bad
            key = {"profile": n, "bin": k, "bad": str(bad), "in": where}
            with rec.case(key), np.errstate(all="ignore"):
                want = [sum(A[:m]*g["f"][:m]) for m in range(n + 1)]
                ws = [np.sqrt(sum((A[:m]*g["sigma"][:m])**2)) for m in range(n + 1)]
                c = rec.call(P.cumulative_radial, re, g["f"], sigma=g["sigma"])
                rec.outcome(*c)
                rec.check(rel(c[0], want) and rel(c[1], ws), key, "cumulative profile", got=c, want=[want, ws])
                rec.check(rel(rec.call(P.cumulative_radial, re, g["f"]), want), key, "cumulative profile alone")


def run(sh, rec, M):
    P = M.polar
    if sh["kind"] == "large":
        large(sh, rec, P)
    elif sh["kind"] == "special":
        special(rec, P)
    elif sh["kind"] == "area":
        for r0 in (0., 0.5, 10.):
            for steps in itertools.product((0.5, 1., 3.), repeat=sh["n"]):
                re = r0 + np.concatenate([[0.], np.cumsum(steps)])
                for npn in range(1, 6):
                    for p0, p1 in ((0., 2*np.pi), (0., np.pi/2), (-1., 1.), (3., 3.01)):
                        pe = np.linspace(p0, p1, npn + 1)
                        key = {"redges": re, "pedges": pe}
                        with rec.case(key):
                            a = rec.call(P.get_polar_area2d, re, pe)
                            rec.outcome(a)
                            want = np.array([[0.5*(b*b - c*c)*(p1 - p0)/npn
                                              for c, b in zip(re[:-1], re[1:])]]*npn)
                            rec.check(close(a, want), key, "cell areas", got=a, want=want)
        for dx, dy in itertools.product((0.1, 1., 2., 50.), repeat=2):
            for n in range(1, 5):
                xe, ye = 3. + dx*np.arange(n + 1), -7. + dy*np.arange(3)
                key = {"dx": dx, "dy": dy, "n": n}
                with rec.case(key):
                    a = rec.call(P.get_pixarea, xe, ye)
                    rec.outcome(a)
                    rec.check(np.ndim(a) == 0 and abs(a - dx*dy) < 1e-9*dx*dy, key, "pixel area", got=a)
    elif sh["kind"] == "radial":
        na, nr = sh["shape"]
        n = na*nr
        base = ((np.arange(n)*7 % 11) - 4.5).reshape(na, nr)
        area = 0.5 + 0.25*np.arange(nr)[None, :] + np.zeros((na, 1))
        fields = []
        if n <= sh["lim"]:
            fields = [np.array(v).reshape(na, nr) for v in itertools.product((0., 1., -2.5), repeat=n)]
        else:
            fields = [base] + [np.eye(n)[i].reshape(na, nr) for i in range(n)]
        ws = [None]
        if n <= sh["lim"]:
            wall = [np.array(v).reshape(na, nr) for v in itertools.product((0., 1., 2.5), repeat=n)]
        else:
            wall = [np.array(v).reshape(na, nr) for v in
                    itertools.product((0., 1.), repeat=n)][:4096]
        sig = 0.3 + 0.1*((np.arange(n)*5) % 7).reshape(na, nr)
        jobs = [(f, w) for f in fields for w in (None, wall[-1])] + [(base, w) for w in wall]
        for f, w in jobs:
            for s in (None, sig):
                for pix in (1., 0.01):
                    key = {"f": f, "w": w, "sigma": s is not None, "pixarea": pix}
                    with rec.case(key):
                        kw = {}
                        if w is not None:
                            kw["w"] = w
                        if s is not None:
                            kw["sigma"] = s
                        o = rec.call(P.polar2radial, f, area, pix, **kw)
                        W = np.ones((na, nr)) if w is None else w
                        wf = np.full(nr, np.nan)
                        wsig = np.full(nr, np.nan)
                        for j in range(nr):
                            t = sum(W[:, j])
                            if t > 0:
                                wf[j] = sum(W[i, j]*f[i, j] for i in range(na))/t
                                wsig[j] = np.sqrt(sum(pix/area[i, j]*(W[i, j]*sig[i, j])**2
                                                      for i in range(na)))/t
                        if s is None:
                            rec.outcome(o)
                            rec.check(close(o, wf), key, "radial mean", got=o, want=wf)
                        else:
                            rec.outcome(*o)
                            rec.check(len(o) == 2 and close(o[0], wf), key, "radial mean with errors")
                            rec.check(len(o) == 2 and close(o[1], wsig), key, "radial error",
                                      got=o[1], want=wsig)
    else:
        n = sh["n"]
        for r0 in (0., 2.):
            for steps in itertools.product((0.5, 1., 3.), repeat=n):
                re = r0 + np.concatenate([[0.], np.cumsum(steps)])
                for f in itertools.product((0., 1., -2.), repeat=n):
                    f = np.array(f)
                    s = 0.1 + np.arange(n)*0.2
                    key = {"redges": re, "f": f}
                    with rec.case(key):
                        c = rec.call(P.cumulative_radial, re, f)
                        A = [np.pi*(b*b - a*a) for a, b in zip(re[:-1], re[1:])]
                        want = [sum(A[i]*f[i] for i in range(k)) for k in range(n + 1)]
                        ws = [np.sqrt(sum((A[i]*s[i])**2 for i in range(k))) for k in range(n + 1)]
                        rec.outcome(c)
                        rec.check(close(c, want), key, "cumulative profile", got=c, want=want)
                        o = rec.call(P.cumulative_radial, re, f, sigma=s)
                        rec.check(len(o) == 2 and close(o[0], want) and close(o[1], ws), key,
                                  "cumulative profile with errors")
