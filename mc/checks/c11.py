"""C11: rotating and shifting points on the unit sphere."""
import itertools

import numpy as np

from mc import rot

SRC = False
MAPS = False
BOUNDS = {
    "quick": "start and end points on a lattice of 9 longitudes x 7 colatitudes (poles, both "
             "labels of a point, default start), every pair that is neither equal nor "
             "antipodal; 70 positions each, as an array and (every 7th) as scalars; end points at 15 "
             "distances from 0.1 to 1e-8 in 8 directions from 35 start points, for rotations and for shifts; the phi "
             "shift over 13 x 13 x 4 shapes",
    "thorough": "13 longitudes x 9 colatitudes",
}
ASSUMPTIONS = ["antipodal start and end points have no unique shortest rotation and are excluded",
               "positions are compared as unit vectors, tolerance 1e-6"]
PI = np.pi
PH = [0., 0.4, PI/2, 2., PI, 4., 3*PI/2, 6., 2*PI]
TH = [0., 0.3, PI/4, PI/2, 2., 3., PI]


def lattice(tier):
    if tier == "quick":
        return PH, TH
    return sorted(set(PH) | {1., 2.7, 4.5, 5.2}), sorted(set(TH) | {1.2, 2.5})


def shards(tier):
    ph, th = lattice(tier)
    out = [{"kind": "rotate", "start": [p, t], "tier": tier} for p in ph for t in th]
    out += [{"kind": "shift", "start": [p, t], "tier": tier} for p in ph for t in th]
    out.append({"kind": "default", "tier": tier})
    out += [{"kind": "phi", "shape": s} for s in ([], [13], [13, 1], [1, 13], [0], [1, 13, 1])]
    out += [{"kind": "near", "start": [p, t]} for p in (0., 0.4, PI/2, 3.3, 6.) for t in TH]
    out.append({"kind": "refuse"})
    return out


def points():
    p, t = np.meshgrid([0., 0.5, 1.5, 2.5, PI, 3.9, 4.8, 5.5, 2*PI, 6.2], [0., 0.2, 1., PI/2, 2., 3., PI])
    return p.ravel(), t.ravel()


def run(sh, rec, M):
    C = M.coords
    px, tx = points()
    V = rot.vec(px, tx)

    def judge(key, got, W, scalar=False):
        p, t = got
        want_shape = () if scalar else (len(px),)
        ok = np.shape(p) == want_shape and np.shape(t) == want_shape
        rec.check(ok, key, "shape of the result", got=[np.shape(p), np.shape(t)])
        if not ok:
            return
        p, t = np.asarray(p), np.asarray(t)
        rec.check(bool(np.all((p >= -1e-12) & (p <= 2*PI + 1e-12) & (t >= -1e-12) & (t <= PI + 1e-12))), key,
                  "angles outside [0, 2 pi] x [0, pi]", got=[p, t])
        d = np.abs(rot.vec(p, t) - W).max()
        rec.check(bool(d < 1e-6), key, "rotated positions", error=d)

    if sh["kind"] == "near":
        # end points at small distances in 8 directions: exact to the distance itself
        p0, t0 = sh["start"]
        u = rot.vec(p0, t0)
        for e in range(2, 17):
            for a in range(8):
                d = 10.**(-e/2.)
                for near in (d, PI - d):
                    dt, dp = near*np.cos(a*PI/4), near*np.sin(a*PI/4)
                    if min(t0, PI - t0) < 1e-9:
                        t1, p1 = abs(t0 - near), a*PI/4
                    elif near == d:
                        t1, p1 = t0 + dt, (p0 + dp/np.sin(t0)) % (2*PI)
                    else:
                        # d away from the antipode of the start
                        t1 = PI - t0 + d*np.cos(a*PI/4)
                        p1 = (p0 + PI + d*np.sin(a*PI/4)/np.sin(t0)) % (2*PI)
                    if not 0. <= t1 <= PI:
                        rec.skipped += 1
                        continue
                    if near != d and e > 8:
                        continue
                    v = rot.vec(p1, t1)
                    key = {"fn": "near", "start": [p0, t0], "end": [p1, t1]}
                    with rec.case(key):
                        g = rec.call(C.usphere_rotate, px, tx, p1, t1, phi_start=p0, theta_start=t0)
                        rec.outcome(*g)
                        W = V @ rot.shortest(u, v).T
                        tol = 2e-7 if near == d else 1e-6
                        # angles within 1e-8 of a pole are lost to arccos, hence the tolerance there
                        far = np.minimum(np.abs(W[:, 2] - 1.), np.abs(W[:, 2] + 1.)) > 1e-3
                        err = np.abs(rot.vec(*g) - W).max(axis=1)
                        rec.check(bool(np.all(err < tol)), key, "rotated positions", error=err.max())
                        if near == d:
                            rec.check(bool(np.all(err[far] < 1e-12 + 1e-6*d)), key,
                                      "small rotation is not accurate to its own size", error=err[far].max())
        # the same for shifts: small steps in longitude and colatitude
        for e in range(2, 17):
            d = 10.**(-e/2.)
            for a, b in itertools.product((-1, 0, 1), repeat=2):
                p1, t1 = p0 + a*d, t0 + b*d*0.7
                if not (0. <= p1 <= 2*PI and 0. <= t1 <= PI):
                    rec.skipped += 1
                    continue
                key = {"fn": "near shift", "start": [p0, t0], "end": [p1, t1]}
                with rec.case(key):
                    g = rec.call(C.usphere_shift, px, tx, p0, t0, p1, t1)
                    rec.outcome(*g)
                    ax = np.array([-np.sin(p1), np.cos(p1), 0.])
                    W = V @ (rot.axis_angle(ax, t1 - t0) @ rot.Rz(p1 - p0)).T
                    far = np.minimum(np.abs(W[:, 2] - 1.), np.abs(W[:, 2] + 1.)) > 1e-3
                    err = np.abs(rot.vec(*g) - W).max(axis=1)
                    rec.check(bool(np.all(err < 2e-7)) and bool(np.all(err[far] < 1e-12 + 1e-6*d)), key,
                              "small shift is not accurate to its own size", error=err.max())
    elif sh["kind"] in ("rotate", "shift", "default"):
        ph, th = lattice(sh["tier"])
        p0, t0 = sh.get("start", [0., 0.])
        u = rot.vec(p0, t0)
        for n, (p1, t1) in enumerate(itertools.product(ph, th)):
            v = rot.vec(p1, t1)
            key = {"fn": sh["kind"], "start": [p0, t0], "end": [p1, t1]}
            if sh["kind"] == "shift":
                if abs(t1 - t0) > PI - 1e-6:
                    rec.skipped += 1
                    continue
                # phi first, then along the meridian of the end point
                e = np.array([-np.sin(p1), np.cos(p1), 0.])
                R = rot.axis_angle(e, t1 - t0) @ rot.Rz(p1 - p0)
                fn = lambda a, b: C.usphere_shift(a, b, p0, t0, p1, t1)
            else:
                if p0 == p1 and t0 == t1:
                    continue
                if u @ v < -1 + 1e-9:
                    rec.skipped += 1
                    continue
                R = rot.shortest(u, v)
                if sh["kind"] == "default":
                    fn = lambda a, b: C.usphere_rotate(a, b, p1, t1)
                else:
                    fn = lambda a, b: C.usphere_rotate(a, b, p1, t1, phi_start=p0, theta_start=t0)
            with rec.case(key):
                got = rec.call(fn, px, tx)
                rec.outcome(*got)
                judge(key, got, V @ R.T)
                st = rec.call(fn, np.array([p0]), np.array([t0]))
                rec.check(np.abs(rot.vec(st[0][0], st[1][0]) - v).max() < 1e-6, key,
                          "the start point does not arrive at the end point", got=st)
                for i in range(n % 7, len(px), 7):
                    g = rec.call(fn, float(px[i]), float(tx[i]))
                    judge(key, g, V[i] @ R.T, scalar=True)
                e = rec.call(fn, px[:1], tx[:1])
                rec.check(np.shape(e[0]) == (1,), key, "one-element arrays")
    elif sh["kind"] == "phi":
        v = np.array([0., 0.1, 1., PI/2, 2., 3., PI, 3.5, 4., 3*PI/2, 5., 6., 2*PI])
        shp = tuple(sh["shape"])
        for d in [float(x) for x in v] + [-float(x) for x in v[1:]] + [1, -3]:
            for s in range(13):
                a = np.roll(v, s)
                arg = float(a[0]) if shp == () else a[:int(np.prod(shp))].reshape(shp).copy()
                key = {"dphi": d, "shape": shp, "roll": s}
                with rec.case(key):
                    b = np.copy(arg)
                    r = rec.call(C.usphere_phi_shift, arg, d)
                    rec.outcome(r)
                    rec.check(np.shape(r) == shp, key, "shape", got=np.shape(r))
                    rr = np.asarray(r)
                    rec.check(bool(np.all((rr >= -1e-12) & (rr <= 2*PI + 1e-12))), key,
                              "shifted longitude outside [0, 2 pi]", got=r)
                    e = np.abs((rr - (b + d) + PI) % (2*PI) - PI)
                    rec.check(bool(np.all(e < 1e-9)), key, "shifted longitude", got=r)
                    rec.check(np.array_equal(b, arg), key, "input changed")
        # whole numbers, as Python and NumPy integers
        for d in range(-6, 7):
            for a in itertools.product(range(7), repeat=min(2, int(np.prod(shp)))):
                n = int(np.prod(shp))
                arg = a[0] if shp == () else np.resize(np.array(a, int), n).reshape(shp) if n else \
                    np.zeros(shp, int)
                for dd in (d, np.int64(d), float(d)):
                    key = {"dphi": str(type(dd)) + str(d), "integers": a, "shape": shp}
                    with rec.case(key):
                        r = np.asarray(rec.call(C.usphere_phi_shift, arg, dd))
                        ok = r.shape == shp and bool(np.all((r >= 0.) & (r <= 2*PI + 1e-12)))
                        ok = ok and bool(np.all(np.abs((r - arg - d + PI) % (2*PI) - PI) < 1e-9))
                        rec.check(ok, key, "shifted integer longitude", got=r)
    else:
        for d in (-2*PI - 0.01, 2*PI + 0.01, 7., -9.):
            key = {"dphi": d}
            with rec.case(key):
                try:
                    rec.call(C.usphere_phi_shift, px, d)
                    ok = False
                except Exception:
                    ok = True
                rec.check(ok, key, "a shift of more than a turn is accepted")
        for name, bad in itertools.product(("rotate", "shift"), ((-0.1, 1., 1., 2.), (6.4, 1., 1., 2.),
                                           (1., -0.1, 2., 2.), (1., 3.2, 2., 2.), (1., 1., -0.1, 2.),
                                           (1., 1., 6.4, 2.), (1., 1., 2., -0.1), (1., 1., 2., 3.2))):
            key = {"fn": name, "refused": bad}
            with rec.case(key):
                try:
                    if name == "rotate":
                        rec.call(C.usphere_rotate, px, tx, bad[2], bad[3], phi_start=bad[0],
                                 theta_start=bad[1])
                    else:
                        rec.call(C.usphere_shift, px, tx, *bad)
                    ok = False
                except Exception:
                    ok = True
                rec.check(ok, key, "points outside the coordinate ranges are accepted")
