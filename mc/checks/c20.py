"""C20: outlines of rectangles, arcs, disc segments and boxes."""
import itertools

import numpy as np

SRC = False
MAPS = False
BOUNDS = {
    "quick": "rectangles, disc segments: 7 x 6 extents x steps 4..60 in fours (and every refused "
             "number); arcs: 5 radii x 13 ranges (beyond a turn, backwards, empty) x 4 centres x 1..30 points; boxes: 12 extents x "
             "steps 12..120, nearest edges from every viewpoint of a 9x9x9 lattice outside the box, "
             "scaled up to 10^5 box sizes",
    "thorough": "viewpoint lattice 13x13x13, steps up to 240",
}
ASSUMPTIONS = ["minimum < maximum on every axis; viewpoints outside the closed box"]
EXT = [(0., 1.), (-2., 3.), (5., 5.5), (0., 2*np.pi), (0.25, 0.75), (10, 20), (0.1, 1./3.)]
PH = [(0., 2*np.pi), (0., np.pi/2), (1., 1.5), (-1., 1.), (np.pi, 2*np.pi), (3., 6.)]
MORE = [(0., 3*np.pi), (-7., 5.), (1., 20.), (2., 1.), (2*np.pi, 0.), (4., 4.), (-20., -19.)]
CEN = [None, (0., 0.), (5., 2.), (-1., 0.5)]
BOX = [((0., 1.),)*3, ((-1.1, 2.3), (0., 1.), (5., 9.)), ((0.3, 0.7),)*3, ((0.1, 1./3.),)*3,
       ((10, 20), (-5, 5), (0, 1)), ((-3., -1.), (2., 2.5), (0., 100.))]


def shards(tier):
    out = [{"kind": "square", "ext": i, "max": 60 if tier == "quick" else 240} for i in range(len(EXT))]
    out += [{"kind": "disc", "r": i, "max": 60 if tier == "quick" else 240} for i in range(4)]
    out += [{"kind": "arc", "c": i} for i in range(len(CEN))]
    out += [{"kind": "box", "b": i} for i in range(len(BOX))]
    n = 9 if tier == "quick" else 13
    out += [{"kind": "near", "b": i, "n": n, "scale": s} for i in range(len(BOX))
            for s in (1., 30., 1e5)]
    return out


def perimeter(rec, key, x, y, ex, ey, steps):
    """x, y walk once around the rectangle ex x ey with steps/4 points per side."""
    n = steps//4
    rec.check(np.shape(x) == (steps,) and np.shape(y) == (steps,), key, "number of points",
              got=np.shape(x))
    t = 1e-9*(1 + max(map(abs, ex + ey)))
    onx = (np.abs(x - ex[0]) < t) | (np.abs(x - ex[1]) < t)
    ony = (np.abs(y - ey[0]) < t) | (np.abs(y - ey[1]) < t)
    ins = (x > ex[0] - t) & (x < ex[1] + t) & (y > ey[0] - t) & (y < ey[1] + t)
    rec.check(bool(np.all((onx | ony) & ins)), key, "point off the perimeter")
    if n >= 2:
        for cx in ex:
            for cy in ey:
                rec.check(bool(np.any((np.abs(x - cx) < t) & (np.abs(y - cy) < t))), key,
                          "corner missing", corner=[cx, cy])
        # consecutive points are one step apart along one side (the outline is connected)
        dx, dy = np.abs(np.diff(x)), np.abs(np.diff(y))
        sx, sy = (ex[1] - ex[0])/(n - 1), (ey[1] - ey[0])/(n - 1)
        ok = ((dx < t) & (np.abs(dy - sy) < t)) | ((dy < t) & (np.abs(dx - sx) < t)) | \
            ((dx < t) & (dy < t))
        rec.check(bool(np.all(ok)), key, "outline is not walked evenly")
        # every side carries its points
        for (u, eu, v, ev) in ((x, ex, y, ey), (y, ey, x, ex)):
            for side in eu:
                on = np.sort(v[np.abs(u - side) < t])
                want = np.linspace(ev[0], ev[1], n)
                rec.check(all(np.any(np.abs(on - w) < t) for w in want), key,
                          "side is not covered evenly", side=side)
        rec.check(abs(x[0] - x[-1]) < t and abs(y[0] - y[-1]) < t, key, "outline not closed")


def run(sh, rec, M):
    P = M.pixel
    if sh["kind"] == "square":
        ex = EXT[sh["ext"]]
        for ey in EXT:
            for steps in list(range(4, sh["max"] + 1, 4)) + [None]:
                key = {"square": [ex, ey], "steps": steps}
                with rec.case(key):
                    kw = {} if steps is None else {"steps": steps}
                    x, y = rec.call(P.get_square, ex[0], ex[1], ey[0], ey[1], **kw)
                    rec.outcome(x, y)
                    perimeter(rec, key, x, y, ex, ey, steps or 40)
            for bad in (-4, 0, 1, 2, 3, 5, 6, 7, 9, 41):
                key = {"square": [ex, ey], "refused": bad}
                with rec.case(key):
                    try:
                        rec.call(P.get_square, ex[0], ex[1], ey[0], ey[1], steps=bad)
                        ok = False
                    except Exception:
                        ok = True
                    rec.check(ok, key, "number of steps not refused")
    elif sh["kind"] == "disc":
        re = [(0.25, 0.75), (1., 2.), (0.5, 30.), None][sh["r"]]
        for ph in PH[1:] + [None]:
            for c in CEN:
                for steps in list(range(4, sh["max"] + 1, 8)) + [None]:
                    key = {"disc": [re, ph], "center": c, "steps": steps}
                    kw = {} if steps is None else {"steps": steps}
                    if re is not None:
                        kw.update(rmin=re[0], rmax=re[1])
                    if ph is not None:
                        kw.update(phimin=ph[0], phimax=ph[1])
                    if c is not None:
                        kw["center"] = list(c)
                    cc = c or (0., 0.)
                    with rec.case(key):
                        x, y = rec.call(P.get_disc, **kw)
                        rec.outcome(x, y)
                        r = np.hypot(x - cc[0], y - cc[1])
                        p0, p1 = ph or (0., 2*np.pi)
                        lo, hi = re or (0., 1.)
                        st = steps or 40
                        rec.check(np.shape(x) == (st,) and np.shape(y) == (st,), key, "points")
                        if p1 - p0 < 6. and lo > 0.:
                            a = (np.arctan2(y - cc[1], x - cc[0]) - p0 + 1e-7) % (2*np.pi) + p0 - 1e-7
                            perimeter(rec, key, r, a, (lo, hi), (p0, p1), st)
                        else:
                            rec.check(bool(np.all((r > lo - 1e-9) & (r < hi + 1e-9))), key, "radius")
                            if st >= 8:
                                rec.check(abs(r.max() - hi) < 1e-9 and abs(r.min() - lo) < 1e-9,
                                          key, "radial extent")
                            on = np.abs(r - hi) < 1e-9
                            a = np.sort(np.arctan2(y - cc[1], x - cc[0])[on] % (2*np.pi))
                            rec.check(bool(np.sum(on) >= st//4), key, "outer arc missing")
                            if st >= 16 and p1 - p0 > 6.:
                                gap = np.max(np.diff(np.concatenate([a, [a[0] + 2*np.pi]])))
                                rec.check(gap < 2*np.pi/(st//4 - 1) + 1e-6, key,
                                          "outer arc not covered", gap=gap)
    elif sh["kind"] == "arc":
        c = CEN[sh["c"]]
        cc = c or (0., 0.)
        for rad in (0.1, 1., 2, 50., 1e-3):
            for ph in PH + MORE + [None]:
                for steps in (list(range(1, 31)) if ph not in MORE else [2, 5, 12]) + [None]:
                    key = {"arc": [rad, ph], "center": c, "steps": steps}
                    kw = {} if steps is None else {"steps": steps}
                    if ph is not None:
                        kw.update(phimin=ph[0], phimax=ph[1])
                    if c is not None:
                        kw["center"] = list(c)
                    with rec.case(key):
                        x, y = rec.call(P.get_arc, rad, **kw)
                        rec.outcome(x, y)
                        p0, p1 = ph or (0., 2*np.pi)
                        n = steps or 10
                        t = [p0 + (p1 - p0)*i/(n - 1) for i in range(n)] if n > 1 else [p0]
                        wx, wy = cc[0] + rad*np.cos(t), cc[1] + rad*np.sin(t)
                        ok = np.shape(x) == (n,) and np.shape(y) == (n,) and \
                            np.max(np.abs(x - wx)) < 1e-9*(1 + rad) and \
                            np.max(np.abs(y - wy)) < 1e-9*(1 + rad)
                        rec.check(ok, key, "points of the arc", got=[x, y])
    else:
        b = BOX[sh["b"]]
        (x0, x1), (y0, y1), (z0, z1) = b
        corners = list(itertools.product(*b))
        edges = set()
        for i, j in itertools.combinations(range(8), 2):
            if sum(a != c for a, c in zip(corners[i], corners[j])) == 1:
                edges.add((i, j))
        scale = max(abs(v) for e in b for v in e) + 1.

        def ends(x, y, z, key):
            """Set of corner index pairs joined by the returned segments."""
            out = []
            for xs, ys, zs in zip(x, y, z):
                p = np.array([xs, ys, zs]).T
                d = np.abs(np.array(corners)[None] - p[[0, -1]][:, None]).max(axis=2)
                i, j = int(d[0].argmin()), int(d[1].argmin())
                rec.check(d[0, i] < 1e-9*scale and d[1, j] < 1e-9*scale, key,
                          "segment does not run from corner to corner")
                w = np.linspace(p[0], p[-1], len(p))
                rec.check(float(np.abs(w - p).max()) < 1e-9*scale, key, "segment not straight")
                out.append((min(i, j), max(i, j)))
            return out
        if sh["kind"] == "box":
            for steps in list(range(24, 121, 12)) + [240, None]:
                key = {"box": b, "steps": steps}
                kw = {} if steps is None else {"steps": steps}
                with rec.case(key):
                    x, y, z = rec.call(P.get_box, x0, x1, y0, y1, z0, z1, **kw)
                    rec.outcome(x, y, z)
                    n = (steps or 120)//12
                    rec.check(np.shape(x) == np.shape(y) == np.shape(z) == (12, n), key, "shape")
                    got = ends(x, y, z, key)
                    rec.check(sorted(got) == sorted(edges), key, "not the twelve edges", got=got)
            for bad in (-12, 0, 1, 4, 6, 11, 13, 30, 100):
                key = {"box": b, "refused": bad}
                with rec.case(key):
                    try:
                        rec.call(P.get_box, x0, x1, y0, y1, z0, z1, steps=bad)
                        ok = False
                    except Exception:
                        ok = True
                    rec.check(ok, key, "number of steps not refused")
        else:
            n = sh["n"]
            cen = [0.5*(a + c) for a, c in b]
            half = [0.5*(c - a) for a, c in b]
            # odd multiples of small fractions never hit the face planes exactly, 1. does
            nth = 0
            pos = sorted(set(list(np.linspace(-3.3, 3.3, n - 2)) + [-1., 1.]))
            for u in itertools.product(pos, repeat=3):
                if max(map(abs, u)) <= 1.:
                    continue
                v = [c + h*q*(sh["scale"] if abs(q) > 1. else 1.)
                     for c, h, q in zip(cen, half, u)]
                for i in range(3):      # exact face planes
                    if u[i] == 1.:
                        v[i] = b[i][1]
                    if u[i] == -1.:
                        v[i] = b[i][0]
                key = {"box": b, "viewpoint": v}
                hid = []
                for c in corners:
                    hid.append(all((vi > ci) if ci == e[0] else (vi < ci)
                                   for vi, ci, e in zip(v, c, b)))
                want = sorted(e for e in edges if not hid[e[0]] and not hid[e[1]])
                with rec.case(key):
                    x, y, z = rec.call(P.get_box, x0, x1, y0, y1, z0, z1, steps=24,
                                       return_nearest=True, center=v)
                    rec.outcome(x, y, z)
                    got = sorted(ends(x, y, z, key))
                    rec.check(got == want, key, "visible edges", got=got, want=want)
                    nth += 1
                    if nth % 5 == 0:        # the same view with the default viewpoint in the origin
                        x, y, z = rec.call(P.get_box, x0 - v[0], x1 - v[0], y0 - v[1], y1 - v[1], z0 - v[2],
                                           z1 - v[2], steps=24, return_nearest=True)
                        got = sorted(ends(x + v[0], y + v[1], z + v[2], key))
                        rec.check(got == want, key, "edges visible from the default point", got=got, want=want)
