"""C10: conversions between cartesian, polar, spherical, latitude and orthographic coordinates."""
import itertools

import numpy as np

SRC = False
MAPS = False
BOUNDS = {
    "quick": "every point of a 13 x 13 plane lattice and 11 x 11 x 11 space lattice (axes, "
             "diagonals, origin, tiny and huge values) for 4 centres, as scalars, Python ints, and arrays of "
             "dimension 0..3; polar/spherical lattices 8 x 13 x 9; sphere segments from every "
             "pair of 9 longitudes and 9 colatitudes and every refused combination, segments down to 1e-10; every function on "
             "arrays stored as 32 and 64 bit integers, float32, strided and read-only",
    "thorough": "plane lattice 31 x 31, space lattice 15^3",
}
ASSUMPTIONS = ["longitudes are compared modulo 2 pi; at the origin and the poles any longitude "
               "in [0, 2 pi] is accepted",
               "8 and 16 bit integers are not judged: NumPy computes their sines in half and single precision"]
PI = np.pi
CEN2 = [None, (0., 0.), (1., -2.5), (0.5, 3)]
CEN3 = [None, (0., 0., 0.), (1., -2.5, 0.25), (-3, 0.5, 4)]
VALS = [-1e6, -3., -1., -0.5, -1e-9, -1e-140, 0., 1e-30, 1e-9, 0.5, 1., 2., 1e6]
V3 = [-7., -1., -0.5, -1e-9, -1e-140, 0., 1e-30, 1e-9, 0.5, 1., 7.]


def shards(tier):
    vals = VALS if tier == "quick" else sorted(set(VALS) | set(np.linspace(-4., 4., 20)))
    v3 = V3 if tier == "quick" else sorted(set(V3) | set(np.linspace(-2., 2., 6)))
    out = [{"kind": "plane", "c": c, "vals": vals} for c in range(4)]
    out += [{"kind": "space", "c": c, "x": x, "vals": v3} for c in range(4) for x in v3]
    out += [{"kind": "polar", "c": c} for c in range(4)]
    out += [{"kind": "sphere", "c": c} for c in range(4)]
    out += [{"kind": "area"}, {"kind": "lat"}, {"kind": "ortho"}, {"kind": "stored"}]
    return out


def shapes(n):
    out = [(n,)]
    for a in (2, 3, 5, 7, 9, 11):
        if n % a == 0:
            out.append((a, n//a))
            for b in (2, 3, 9, 11):
                if (n//a) % b == 0:
                    out.append((a, b, n//a//b))
                    break
            break
    return out


def run(sh, rec, M):
    C = M.coords
    kind = sh["kind"]

    def kw(c):
        return {} if c is None else {"center": list(c)}

    if kind == "plane":
        c = CEN2[sh["c"]]
        cc = c or (0., 0.)
        pts = np.array(list(itertools.product(sh["vals"], repeat=2)))
        pts = np.concatenate([pts, [cc]])

        def judge(key, x, y, r, p):
            X, Y = np.asarray(x, float) - cc[0], np.asarray(y, float) - cc[1]
            R = np.hypot(X, Y)
            ok = np.shape(r) == np.shape(x) and np.shape(p) == np.shape(x)
            rec.check(ok, key, "shape", got=[np.shape(r), np.shape(p)])
            if not ok:
                return
            rec.check(bool(np.all(np.abs(r - R) <= 1e-12*R)), key, "radius", got=r)
            rec.check(bool(np.all((np.asarray(p) >= 0.) & (np.asarray(p) <= 2*PI))), key,
                      "angle outside [0, 2 pi]", got=p)
            rec.check(bool(np.all(np.hypot(r*np.cos(p) - X, r*np.sin(p) - Y) <= 1e-9*R)), key,
                      "angle does not point to (x, y)", got=p)
            rec.check(bool(np.all((np.asarray(p) == 0.) | ~axis(X, Y))), key, "angle of the positive x axis", got=p)
        for x, y in pts:
            forms = [(float(x), float(y)), (np.float64(x), np.float64(y))]
            if x == int(x) and y == int(y):
                forms.append((int(x), int(y)))
            for f, (a, b) in enumerate(forms):
                key = {"x": x, "y": y, "center": c, "form": f}
                with rec.case(key):
                    r, p = rec.call(C.cart2polar, a, b, **kw(c))
                    rec.outcome(r, p)
                    judge(key, a, b, r, p)
                    x2, y2 = rec.call(C.polar2cart, r, p, **kw(c))
                    rec.check(abs(x2 - x) + abs(y2 - y) <= 1e-9*(abs(x - cc[0]) + abs(y - cc[1])) + 1e-15*(abs(cc[0]) + abs(cc[1])) + 1e-18,
                              key, "polar to cartesian does not come back", got=[x2, y2])
        for shp in shapes(len(pts)) + [(2, len(pts)//2), (1,), (0,)]:
            n = int(np.prod(shp))
            for order in (1, -1):
                q = pts[::order][:n]
                x, y = q[:, 0].reshape(shp), q[:, 1].reshape(shp)
                key = {"center": c, "shape": shp, "order": order}
                with rec.case(key):
                    r, p = rec.call(C.cart2polar, x, y, **kw(c))
                    judge(key, x, y, r, p)
                    x2, y2 = rec.call(C.polar2cart, r, p, **kw(c))
                    t = 1e-9*(np.abs(x - cc[0]) + np.abs(y - cc[1])) + 1e-14
                    rec.check(np.shape(x2) == shp and bool(np.all(np.abs(x2 - x) <= t)) and
                              bool(np.all(np.abs(y2 - y) <= t)), key,
                              "polar to cartesian does not come back")
        xi = np.array([1, -2, 0, 0, 3]), np.array([0, 5, -1, 0, -3])
        key = {"center": c, "ints": True}
        with rec.case(key):
            r, p = rec.call(C.cart2polar, xi[0], xi[1], **kw(c))
            judge(key, xi[0], xi[1], r, p)
    elif kind == "space":
        c = CEN3[sh["c"]]
        cc = np.array(c or (0., 0., 0.))
        pts = np.array([(sh["x"],) + t for t in itertools.product(sh["vals"], repeat=2)])
        pts = np.concatenate([pts, [cc], [cc + [0., 0., 2.]], [cc - [0., 0., 2.]]])

        def judge(key, x, y, z, r, p, t):
            X = np.stack([np.asarray(x, float) - cc[0], np.asarray(y, float) - cc[1],
                          np.asarray(z, float) - cc[2]])
            R = np.sqrt(np.sum(X**2, axis=0))
            ok = np.shape(r) == np.shape(x) == np.shape(p) == np.shape(t)
            rec.check(ok, key, "shape", got=[np.shape(r), np.shape(p), np.shape(t)])
            if not ok:
                return
            p, t = np.asarray(p), np.asarray(t)
            rec.check(bool(np.all(np.abs(r - R) <= 1e-12*R)), key, "radius", got=r)
            rec.check(bool(np.all((p >= 0.) & (p <= 2*PI) & (t >= 0.) & (t <= PI))), key,
                      "angles outside [0, 2 pi] x [0, pi]", got=[p, t])
            rho = np.hypot(X[0], X[1])
            true = np.arctan2(rho, X[2])
            rec.check(bool(np.all((np.abs(t - true) <= 1e-7) | (R == 0.))), key, "colatitude",
                      got=t, want=true)
            rec.check(bool(np.all((np.abs(t - true) <= 3e-8) | (rho != 0.) | (R == 0.))), key,
                      "colatitude of the axis", got=t, want=true)
            rec.check(bool(np.all(np.hypot(rho*np.cos(p) - X[0], rho*np.sin(p) - X[1])
                                  <= 1e-9*rho)), key, "longitude", got=p)
            rec.check(bool(np.all((p == 0.) | ~axis(X[0], X[1]))), key, "longitude of the positive x axis", got=p)
            rec.check(bool(np.all((t == 0.) | (R != 0.))), key, "colatitude of the origin is not 0")
        for q in pts:
            forms = [tuple(map(float, q)), tuple(map(np.float64, q))]
            if all(v == int(v) for v in q):
                forms.append(tuple(map(int, q)))
            for f, (a, b, d) in enumerate(forms):
                key = {"xyz": q, "center": c, "form": f}
                with rec.case(key):
                    r, p, t = rec.call(C.cart2sphere, a, b, d, **kw(c))
                    rec.outcome(r, p, t)
                    judge(key, a, b, d, r, p, t)
                    back = rec.call(C.sphere2cart, r, p, t, **kw(c))
                    rec.check(all(np.ndim(v) == 0 for v in back) and
                              max(abs(u - v) for u, v in zip(back, q)) <= 1e-7*r + 1e-15*np.abs(cc).sum(), key,
                              "spherical to cartesian does not come back", got=back)
        for shp in shapes(len(pts)) + [(2, len(pts)//2), (2, 2, len(pts)//4), (1,), (0,)]:
            n = int(np.prod(shp))
            x, y, z = [pts[:n, i].reshape(shp) for i in range(3)]
            key = {"x": sh["x"], "center": c, "shape": shp}
            with rec.case(key):
                r, p, t = rec.call(C.cart2sphere, x, y, z, **kw(c))
                judge(key, x, y, z, r, p, t)
                b = rec.call(C.sphere2cart, r, p, t, **kw(c))
                rec.check(all(np.shape(v) == shp and bool(np.all(np.abs(v - u) <= 1e-7*r + 1e-15*np.abs(cc).sum()))
                              for v, u in zip(b, (x, y, z))), key,
                          "spherical to cartesian does not come back")
    elif kind in ("polar", "sphere"):
        rs = [0., 1e-3, 0.5, 1., 2, 7.5, 1e4]
        phs = [0., 0.3, PI/2, 2., PI, 4., 3*PI/2, 5.5, 2*PI, -1., 7.]
        ths = [0., 0.2, PI/4, PI/2, 2., 3., PI]
        c = (CEN2 if kind == "polar" else CEN3)[sh["c"]]
        cc = c or (0.,)*3
        combos = list(itertools.product(rs, phs)) if kind == "polar" else \
            list(itertools.product(rs, phs, ths))

        def want(q):
            if kind == "polar":
                r, p = q
                return (cc[0] + r*np.cos(p), cc[1] + r*np.sin(p))
            r, p, t = q
            return (cc[0] + r*np.sin(t)*np.cos(p), cc[1] + r*np.sin(t)*np.sin(p), cc[2] + r*np.cos(t))
        fn = C.polar2cart if kind == "polar" else C.sphere2cart
        for q in combos:
            key = {"from": kind, "at": q, "center": c}
            with rec.case(key):
                got = rec.call(fn, *q, **kw(c))
                rec.outcome(*got)
                w = want(q)
                rec.check(len(got) == len(w) and all(np.ndim(a) == 0 and abs(a - b) <= 1e-12*(1 + q[0])
                                                     for a, b in zip(got, w)), key,
                          "cartesian coordinates", got=got, want=w)
        arr = np.array(combos, dtype=float)
        for shp in [(len(arr),), (len(arr)//7, 7), (7, 1, len(arr)//7), (0,), (1,)]:
            n = int(np.prod(shp))
            cols = [arr[:n, i].reshape(shp) for i in range(arr.shape[1])]
            key = {"from": kind, "shape": shp, "center": c}
            with rec.case(key):
                got = rec.call(fn, *cols, **kw(c))
                w = np.array([want(q) for q in arr[:n]]).reshape(n, arr.shape[1])
                rec.check(all(np.shape(a) == shp and bool(np.all(np.abs(a.reshape(-1) - w[:, i]) <= 1e-8))
                              for i, a in enumerate(got)), key, "cartesian coordinates")
                # one radius for all angles
                got = rec.call(fn, 2.5, *cols[1:], **kw(c))
                w = np.array([want((2.5,) + tuple(q[1:])) for q in arr[:n]]).reshape(n, arr.shape[1])
                rec.check(all(np.shape(a) == shp and bool(np.all(np.abs(a.reshape(-1) - w[:, i]) <= 1e-8))
                              for i, a in enumerate(got)), key, "cartesian coordinates, one radius")
    elif kind == "stored":
        stored(rec, C, kw)
    elif kind == "area":
        P = [0., 0.1, 1., PI/2, PI, 4., 3*PI/2, 6., 2*PI]
        T = [0., 0.1, 0.5, 1., PI/2, 2., 2.5, 3., PI]
        tot = {}
        for a, b in itertools.product(P, repeat=2):
            for t, u in itertools.product(T, repeat=2):
                key = {"phi": [a, b], "theta": [t, u]}
                legal = a < 2*PI and b > 0. and a != b and t < PI and u > 0. and t != u
                with rec.case(key):
                    try:
                        v = rec.call(C.usphere_area, a, b, t, u)
                    except Exception:
                        rec.check(not legal, key, "a valid segment is refused")
                        continue
                    rec.check(legal, key, "an invalid segment is accepted")
                    rec.outcome(v)
                    rec.check(abs(v - (b - a)*(np.cos(t) - np.cos(u))) < 1e-12*10, key, "area", got=v)
        # small segments, judged against their own size
        for (p, t), i, j in itertools.product(itertools.product((0., 0.3, 2., 5.), (0.4, 1., PI/2, 2.5)),
                                              range(1, 11), range(1, 11)):
            a, b, t, u = p, p + 10.**-i, t, t + 10.**-j
            key = {"phi": [a, b], "theta": [t, u]}
            with rec.case(key):
                v = rec.call(C.usphere_area, a, b, t, u)
                rec.outcome(v)
                dp, dc = b - a, 2*np.sin((t + u)/2)*np.sin((u - t)/2)
                rec.check(abs(v - dp*dc) <= 4e-16*dp + 4e-16*abs(dc) + 1e-12*abs(dp*dc), key, "area", got=v,
                          want=dp*dc)
        for bad in ((-0.1, 1., 0., 1.), (0., 6.4, 0., 1.), (0., 1., -0.1, 1.), (0., 1., 0., 3.2),
                    (7., 1., 0., 1.), (0., -1., 0., 1.), (0., 1., 3.2, 1.), (0., 1., 0., -1.)):
            key = {"refused": bad}
            with rec.case(key):
                try:
                    rec.call(C.usphere_area, *bad)
                    ok = False
                except Exception:
                    ok = True
                rec.check(ok, key, "an invalid segment is accepted")
    elif kind == "lat":
        for t in list(np.linspace(0., PI, 41)) + [1]:
            key = {"theta": t}
            with rec.case(key):
                l = rec.call(C.sphere2lonlat, t)
                rec.outcome(l)
                rec.check(abs(l - (PI/2 - t)) < 1e-14, key, "latitude", got=l)
                b = rec.call(C.lonlat2sphere, l)
                rec.check(abs(b - t) < 1e-14, key, "latitude does not convert back", got=b)
        for shp in ((41,), (2, 20), (2, 2, 5), (0,)):
            t = np.linspace(0., PI, int(np.prod(shp))).reshape(shp)
            key = {"shape": shp}
            with rec.case(key):
                l = rec.call(C.sphere2lonlat, t)
                b = rec.call(C.lonlat2sphere, l)
                rec.check(np.shape(l) == shp and bool(np.all(np.abs(l + t - PI/2) < 1e-14)) and
                          bool(np.all(np.abs(b - t) < 1e-14)), key, "latitudes of an array")
    else:
        v = [-3., -1., -0.8, -0.6, -0.1, 0., 0.1, 0.5, 0.6, 0.8, 1., 2.5]
        for r in (None, 1., 0.5, 2, 3.):
            for fill in (None, np.nan, 0., -7.):
                R = 1. if r is None else r
                k = {}
                if r is not None:
                    k["r"] = r
                if fill is not None:
                    k["fill_value"] = fill
                fv = np.nan if fill is None else fill

                def ok(z, x, y):
                    s = R**2 - x**2 - y**2
                    if abs(s) < 1e-12:   # on the rim both answers are right
                        return z == fv or (np.isnan(z) and np.isnan(fv)) or abs(z) < 1e-5
                    if s > 0:
                        return abs(z - np.sqrt(s)) < 1e-12
                    return z == fv or (np.isnan(z) and np.isnan(fv))
                for x, y in itertools.product(v, repeat=2):
                    key = {"r": r, "fill": str(fill), "at": [x, y]}
                    with rec.case(key):
                        z = rec.call(C.ortho2cart, x, y, **k)
                        rec.outcome(z)
                        rec.check(np.ndim(z) == 0 and ok(z, x, y), key, "height on the sphere", got=z)
                # the rim itself: one answer, whether asked for alone or in an array
                for x, y in ((R, 0.), (-R, 0.), (0., R), (0., -R)):
                    key = {"r": r, "fill": str(fill), "rim": [x, y]}
                    with rec.case(key):
                        z = rec.call(C.ortho2cart, float(x), y, **k)
                        for n in (1, 2):
                            a = rec.call(C.ortho2cart, np.full(n, float(x)), np.full(n, y), **k)
                            rec.check(all(q == z or (np.isnan(q) and np.isnan(z)) for q in a), key,
                                      "a point of the rim alone and in an array", got=a, want=z)
                g = np.array(list(itertools.product(v, repeat=2)))
                for shp in ((144,), (12, 12), (2, 8, 9), (0,)):
                    n = int(np.prod(shp))
                    key = {"r": r, "fill": str(fill), "shape": shp}
                    with rec.case(key):
                        x, y = g[:n, 0].reshape(shp), g[:n, 1].reshape(shp)
                        z = rec.call(C.ortho2cart, x, y, **k)
                        rec.check(np.shape(z) == shp and all(ok(c, a, b) for a, b, c in
                                                             zip(x.flat, y.flat, z.flat)), key,
                                  "heights of an array")


def axis(X, Y):
    """Points on the positive x axis: their angle is 0, not a whole turn."""
    return (X > 0.) & (Y == 0.) & ~np.signbit(Y)


def stored(rec, C, kw):
    """The same points in every storage: the answers are those of float64."""
    v = np.array(list(itertools.product((-3., -1., 0., 1., 2.), repeat=3)))
    a = np.array(list(itertools.product((0., 1., 2., 3., 5., 6.), (0., 1., 2., 3.), (0., 1., 4.))))

    def fns(c2, c3):
        out = [("cart2polar", lambda q: C.cart2polar(q[0], q[1], **kw(c2)), v, 2),
               ("polar2cart", lambda q: C.polar2cart(q[2], q[0], **kw(c2)), a, 2),
               ("cart2sphere", lambda q: C.cart2sphere(*q, **kw(c3)), v, 3),
               ("sphere2cart", lambda q: C.sphere2cart(q[2], q[0], q[1], **kw(c3)), a, 3),
               ("sphere2cart, one radius", lambda q: C.sphere2cart(2, q[0], q[1], **kw(c3)), a, 3)]
        return out
    more = [("sphere2lonlat", lambda q: (C.sphere2lonlat(q[1]),), a, 1),
            ("lonlat2sphere", lambda q: (C.lonlat2sphere(q[0] % 2),), v, 1)]
    more += [("ortho2cart %s %s" % (r, fv), lambda q, r=r, fv=fv: (C.ortho2cart(q[0], q[1], r, fv),), v, 1)
             for r in (1.7, 2.6, 3) for fv in (np.nan, 0, -2.5, 7)]
    every = more
    for c2 in CEN2 + [(0.5, -1), (1, 2)]:
        for c3 in CEN3:
            every = every + [(n + " %s %s" % (c2, c3), *r) for n, *r in fns(c2, c3)]
    for name, fn, pts, k in every:
        plain = rec.call(fn, [pts[:, i].copy() for i in range(3)])
        for dt in ("i4", "i8", "f4", "f8"):
            for form in ("contiguous", "strided", "reversed", "fortran", "read-only", "column"):
                key = {"stored": name, "as": dt, "form": form}
                with rec.case(key):
                    q = [pts[:, i].astype(dt) for i in range(3)]
                    n = len(pts)
                    pick = np.arange(n)
                    if form == "strided":
                        q = [np.repeat(x, 3)[::3] for x in q]
                    elif form == "reversed":
                        q = [x[::-1] for x in q]
                        pick = pick[::-1]
                    elif form == "fortran":
                        m = n//2*2
                        q = [x[:m].reshape(2, m//2).T for x in q]
                        pick = pick[:m].reshape(2, m//2).T
                    elif form == "column":
                        q = list(np.stack(q, axis=1).T)
                    if form == "read-only":
                        for x in q:
                            x.flags.writeable = False
                    keep = [x.copy() for x in q]
                    got = rec.call(fn, q)
                    rec.check(all(np.array_equal(x, y) for x, y in zip(keep, q)), key, "input changed")
                    rec.check(len(got) == k, key, "number of results")
                    for g, w in zip(got, plain):
                        rec.outcome(g)
                        w = w[pick]
                        tol = 1e-5 if dt == "f4" else 1e-13
                        ok = np.shape(g) == np.shape(w) and bool(np.all(
                            (np.abs(g - w) <= tol*(1 + np.abs(w))) | (np.isnan(g) & np.isnan(w))))
                        rec.check(ok, key, "storage changes the result", got=g, want=w)
                        if dt in ("i4", "i8", "f8"):
                            rec.check(np.asarray(g).dtype == np.float64, key,
                                      "the result is not double precision", got=str(np.asarray(g).dtype))
