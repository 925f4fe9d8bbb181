"""C32: perspective views."""
import itertools

import numpy as np

from mc import rot
from mc.core import close

SRC = False
MAPS = True
PI = np.pi
BOUNDS = {
    "quick": "5 camera positions x 26 forward directions (axes, diagonals, poles) + 8 odd ones + 14 tilted by 1e-3 to 1e-9 x 3 "
             "distances x 5 spins x 2 display distances (display distances from 1e-9 to 1e12 by proportion); 10 special spins (within 1e-7 of 0, a "
             "quarter, half and full turn); every sequence of 3 "
             "set-ups out of 16; every point of a 7x7x7 lattice about "
             "the camera (without the camera and the plane through it) and 7x7x3 display positions",
    "thorough": "13 spins, 11x11x11 lattice, sequences of 4 set-ups",
}
VIEWS = list(itertools.product(((0., 0., 0.), (5., 0., -1.)), ((1., 1., 1.), (2., -3., 0.5)),
                               (1., 0.25), (None, 0.7)))
ASSUMPTIONS = ["arrays of one dimension; spin in [0, 2 pi]; points not in the plane of the camera",
               "looking straight up or down any orientation about the axis is accepted"]


def shards(tier):
    dirs = [d for d in itertools.product((-1., 0., 1.), repeat=3) if any(d)]
    dirs += [(0.3, -0.9, 0.2), (-2., 0.1, -0.7), (0.01, 0.02, 1.), (-0.01, 0.02, -1.), (5., 1e-3, 0.),
             (-1., -1e-6, 0.), (0.6, 0.3, -2.), (1., -1e-9, 0.5)]
    # nearly level views
    dirs += [(np.cos(a), np.sin(a), s*10.**-e) for e in range(3, 10) for a, s in ((0.4, 1), (4., -1))]
    return [{"dir": d, "t": tier} for d in dirs] + \
        [{"hist": i, "t": tier} for i in range(len(VIEWS))]


def history(sh, rec, M):
    """One object set up several times: its views are those of a new object."""
    p = [np.array([1., 2., -1.3, 7.]), np.array([0.5, -2., 0.7, 3.]), np.array([0.3, 0.8, 2., -4.])]

    def setup(o, v):
        rec.call(o.setup, list(v[0]), list(v[1]), v[2], **({} if v[3] is None else {"spin": v[3]}))

    def answers(o):
        b = rec.call(o.transform, *[q.copy() for q in p])
        return [np.array(q) for q in list(b) + list(rec.call(o.reverse, *[q.copy() for q in b]))]
    new = []
    for v in VIEWS:
        o = M.densegrid.PointOfView()
        setup(o, v)
        new.append(answers(o))
    for rest in itertools.product(range(len(VIEWS)), repeat=3 if sh["t"] == "thorough" else 2):
        for last in (rest[-1:], rest):
            seq = [sh["hist"]] + list(last)
            key = {"views": seq}
            with rec.case(key):
                o = M.densegrid.PointOfView()
                for i in seq:
                    setup(o, VIEWS[i])
                    a = answers(o)
                    rec.check(all(close(x, y, 1e-12) for x, y in zip(a, new[i])), key,
                              "view depends on an earlier set-up", at=i)


def run(sh, rec, M):
    if "hist" in sh:
        return history(sh, rec, M)
    d, t = np.array(sh["dir"]), sh["t"] == "thorough"
    n = np.linalg.norm(d)
    ph, th = rot.ang(d)
    pole = np.hypot(d[0], d[1]) == 0.
    k = 5 if t else 3
    lat = np.array([p for p in itertools.product(range(-k, k + 1), repeat=3) if any(p)])*0.61803
    lat = lat + np.array([0.0123, -0.0217, 0.0071])
    spins = [None, 0.7, PI/2, 3.9, 6.] + ([1e-3, 2., 4.5, 5.5, 2.5, 1.] if t else [])
    rare = [0., PI, 3*PI/2, 2*PI, 1e-3, 1e-5, 1e-7, PI + 1e-6, PI/2 - 1e-6, 2*PI - 1e-4]
    for cam in ((0., 0., 0.), (1., -2., 0.5), (100., 50., -20.), (-0.3, 0., 0.), (0., 0., 7.)):
        for dist in (1., 0.01, 300.):
            point = np.array(cam) + d/n*dist
            for disp in (1e-9, 1e-6, 1e-3, 50., 1e6, 1e12):
                key = {"dir": sh["dir"], "camera": cam, "dist": dist, "spin": 0.7, "display": disp}
                with rec.case(key):
                    o, u = M.densegrid.PointOfView(), M.densegrid.PointOfView()
                    rec.call(o.setup, list(cam), list(point), disp, spin=0.7)
                    rec.call(u.setup, list(cam), list(point), 1., spin=0.7)
                    p = lat + np.array(cam)
                    a = rec.call(o.transform, p[:, 0].copy(), p[:, 1].copy(), p[:, 2].copy())
                    b = rec.call(u.transform, p[:, 0].copy(), p[:, 1].copy(), p[:, 2].copy())
                    rec.check(all(bool(np.all(np.abs(x/disp - y) <= 1e-9*(np.abs(y)))) for x, y in zip(a[:2], b[:2])) and
                              close(a[2], b[2], 1e-12), key, "view is not proportional to the display distance")
                    x = rec.call(o.reverse, *a)
                    y = rec.call(u.reverse, *b)
                    rec.check(all(close(q, r, 1e-6*(1. + max(map(abs, cam)))) for q, r in zip(x, y)), key,
                              "reverse depends on the display distance")
            # the direction the object is told, in floating point
            for spin in spins + (rare if cam[0] in (1., 0.) and dist == 1. else []):
                for disp in (1., 0.25) if spin in spins else (0.8,):
                    key = {"dir": sh["dir"], "camera": cam, "dist": dist, "spin": spin, "display": disp}
                    form = [list, tuple, np.array][int(disp*4) % 3]
                    with rec.case(key):
                        o = M.densegrid.PointOfView()
                        kw = {} if spin is None else {"spin": spin}
                        rec.call(o.setup, form(cam), form(point), disp, **kw)
                        R = rot.Rx(spin or 0.) @ rot.Ry(PI/2 - th) @ rot.Rz(-ph)
                        want = lat @ R.T
                        ok = np.abs(want[:, 0]) > 1e-3
                        p, w = lat[ok] + np.array(cam), want[ok]
                        bx, by, ds = rec.call(o.transform, p[:, 0].copy(), p[:, 1].copy(), p[:, 2].copy())
                        rec.outcome(bx, by, ds)
                        if pole:
                            # compare after the unknown turn about the axis
                            good = close(ds, np.linalg.norm(w, axis=1), 1e-7)
                            g = np.stack([np.ones(len(bx)), bx/disp, by/disp], axis=1)
                            g *= (ds*np.sign(w[:, 0])/np.linalg.norm(g, axis=1))[:, None]
                            good = good and close(g[:, 0], w[:, 0], 1e-5) and \
                                close(g @ g.T, w @ w.T, 1e-4) and \
                                abs(np.linalg.det(g[:3]) - np.linalg.det(w[:3])) < 1e-4
                            rec.check(bool(good), key, "view straight up or down")
                        else:
                            tol = 1e-6 if dist > 0.1 or max(map(abs, cam)) < 10 else 1e-3
                            s = disp/w[:, 0]
                            rec.check(close(ds, np.linalg.norm(w, axis=1), 1e-7), key, "distance")
                            sc = 1. + np.abs(s)*np.linalg.norm(w, axis=1)*(1 + np.linalg.norm(w, axis=1)/np.abs(w[:, 0]))
                            e = np.hypot(bx - w[:, 1]*s, by - w[:, 2]*s)/sc
                            rec.check(bool(np.all(e < tol)), key, "projected position",
                                      worst=np.max(e), at=lat[ok][np.argmax(e)])
                            # away from the poles of the three frames nothing is lost to rounding
                            rr = np.linalg.norm(w, axis=1)
                            mid = (p - np.array(cam)) @ (rot.Ry(PI/2 - th) @ rot.Rz(-ph)).T
                            easy = np.max(np.abs([mid[:, 2], w[:, 2], lat[ok][:, 2]]), axis=0) < 0.95*rr
                            fine = 1e-11 + 1e-13*(1 + max(map(abs, cam)))/dist
                            rec.check(bool(np.all(e[easy] < fine)), key,
                                      "projected position is not accurate", worst=np.max(e[easy]), bound=fine)
                        fr = w[:, 0] > 0
                        x, y, z = rec.call(o.reverse, bx[fr], by[fr], ds[fr])
                        e = np.abs(np.stack([x, y, z], axis=1) - p[fr])
                        rec.check(bool(np.all(e < 1e-6*(1 + np.max(np.abs(p))))), key,
                                  "reverse does not undo transform", worst=np.max(e))
                        g = [q.ravel() for q in np.meshgrid(np.linspace(-2, 2, 7), np.linspace(-1, 3, 7),
                                                            [0.1, 1., 30.])]
                        x, y, z = rec.call(o.reverse, *[q.copy() for q in g])
                        b2 = rec.call(o.transform, x, y, z)
                        rec.check(all(close(a, b, 1e-5) for a, b in zip(b2, g)), key,
                                  "transform does not undo reverse")
