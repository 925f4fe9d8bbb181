"""C12: spinning the sphere about a centre."""
import itertools

import numpy as np

from mc import rot
from mc.checks.c11 import points

SRC = False
MAPS = False
BOUNDS = {
    "quick": "13 longitudes x 11 colatitudes of the centre x 17 evenly spaced, 3 general and 18 special spin "
             "angles (within 1e-3..1e-9 of 0, pi/2, pi, 2 pi), 70 positions as an "
             "array and every 9th as a scalar; composition of every pair of 5 angles",
    "thorough": "25 x 21 x 33",
}
ASSUMPTIONS = ["tolerance 1e-6 on unit vectors, 1e-10 away from the poles and the centre"]
PI = np.pi
SMALL = {1e-2, 1e-3, 1e-4, 1e-5, 1e-7, 1e-9, 2*PI - 1e-3, 2*PI - 1e-5, 2*PI - 1e-7, PI - 1e-4, PI + 1e-5,
         PI + 1e-7, PI/2 + 1e-5, PI/2 - 1e-7, 3*PI/2, 3*PI/2 + 1e-6, PI/4, 0.0087}


def shards(tier):
    a, b = (13, 11) if tier == "quick" else (25, 21)
    ths = [float(t) for t in np.linspace(0., PI, b)] + [PI - 1e-3, 0.01, PI/2]
    return [{"phi": float(p), "ths": ths, "na": 17 if tier == "quick" else 33}
            for p in np.linspace(0., 2*PI, a)]


def run(sh, rec, M):
    C = M.coords
    px, tx = points()
    V = rot.vec(px, tx)
    pc = sh["phi"]
    alphas = sorted(set(np.linspace(0., 2*PI, sh["na"])) | {0.1, 1., 3.} | SMALL)
    for tc in sh["ths"]:
        c = rot.vec(pc, tc)
        for n, al in enumerate(alphas):
            R = rot.axis_angle(c, al)
            key = {"center": [pc, tc], "alpha": al}
            with rec.case(key):
                p, t = rec.call(C.usphere_spin, px, tx, pc, tc, al)
                rec.outcome(p, t)
                ok = np.shape(p) == px.shape and np.shape(t) == px.shape
                rec.check(ok, key, "shape")
                if ok:
                    d = np.abs(rot.vec(p, t) - V @ R.T).max()
                    rec.check(bool(d < 1e-6), key, "spun positions", error=d)
                    # far from the poles the angles are exact to rounding
                    W = V @ R.T
                    f = (np.abs(V[:, 2]) < 0.99) & (np.abs(W[:, 2]) < 0.99)
                    f &= (np.abs(V @ c) < 0.99)
                    d = np.abs(rot.vec(p, t) - W)[f].max() if f.any() else 0.
                    rec.check(bool(d < 1e-10), key, "spun positions, away from poles and centre", error=d)
                    rec.check(bool(np.all((p >= -1e-12) & (p <= 2*PI + 1e-12) & (t >= -1e-12) & (t <= PI + 1e-12))), key,
                              "angles out of range")
                for i in range(n % 9, len(px), 9):
                    a, b = rec.call(C.usphere_spin, float(px[i]), float(tx[i]), pc, tc, al)
                    rec.check(np.ndim(a) == 0 and np.abs(rot.vec(a, b) - R @ V[i]).max() < 1e-6,
                              key, "scalar position", got=[a, b])
                a, b = rec.call(C.usphere_spin, np.array([pc]), np.array([tc]), pc, tc, al)
                rec.check(np.abs(rot.vec(a, b)[0] - c).max() < 1e-6, key, "the centre moves")
        for a1, a2 in itertools.product((0., 0.7, 2., 4., 2*PI), repeat=2):
            key = {"center": [pc, tc], "twice": [a1, a2]}
            with rec.case(key):
                q = rec.call(C.usphere_spin, *rec.call(C.usphere_spin, px, tx, pc, tc, a1), pc, tc, a2)
                R = rot.axis_angle(c, a1 + a2)
                rec.check(np.abs(rot.vec(*q) - V @ R.T).max() < 3e-6, key, "two spins do not add up")
    for bad in ((-0.1, 1., 1.), (6.4, 1., 1.), (1., -0.1, 1.), (1., 3.2, 1.), (1., 1., -0.1), (1., 1., 6.4)):
        key = {"refused": bad}
        with rec.case(key):
            try:
                rec.call(C.usphere_spin, px, tx, *bad)
                ok = False
            except Exception:
                ok = True
            rec.check(ok, key, "a centre or angle outside its range is accepted")
