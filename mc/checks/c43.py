"""C43: drawings show the coordinates they claim to show."""
import importlib
import itertools
import os
import re

import numpy as np

from mc import rot

os.environ.setdefault("MPLBACKEND", "Agg")
SRC = False
MAPS = True
PI, TWO = np.pi, 2*np.pi
CENTERS = ([0., 0.], [0., 1.], [2., 1.2], [6.2, 2.5], [4., PI], [1., PI/2], [TWO, 0.4], [3.3, 2.9])
BOUNDS = {
    "quick": "8 centres (poles, equator, seam, hidden poles) x 4 boxes x 2 radii; images of 3 shapes; grids of 5 steps, equal "
             "and unequal in both directions; labels on the sphere for every step x zero points x shifts x decimals x "
             "lonlat x rotation in pairs; axis labels for every step x decimals x lonlat; 6 patches x 3 divisions x "
             "lonlat; finishing in all 8 ways; given axes and current axes; every sequence of 3 out of 6 drawings on 2 axes "
             "from 2 objects, one set up again between",
    "thorough": "16 more centres, 4 more steps, the full product of the options",
}
ASSUMPTIONS = ["steps divide the turn", "axis labels are judged where the edge of the box lies on the sphere",
               "labels within 1e-6 of the border of the box, of the limb or of a pole may be left out"]
BOXES = ((0.6, 0.6, 1.), (1.2, 0.9, 1.), (3., 3., 2.5), (2., 2., 1.))
STEPS = ((15., None), (30., None), (15., 30.), (10., 20.), (45., 7.5))


def vec(phi, theta):
    return rot.vec(*np.broadcast_arrays(np.asarray(phi, float), np.asarray(theta, float)))


def cases(t):
    c = list(CENTERS)
    if t == "thorough":
        c += [[0.7 + 0.39*i, 0.11 + 0.19*i] for i in range(16)]
    return c


def shards(tier):
    n = len(cases(tier))
    return [{"part": p, "c": c, "t": tier} for p in ("grid", "sphere", "axis", "rest") for c in range(n)] + \
           [{"part": "history", "c": c, "t": tier} for c in range(6)] + [{"part": "flat", "c": 0, "t": tier}]


def run(sh, rec, M):
    import matplotlib
    matplotlib.use("Agg", force=True)
    with np.errstate(all="ignore"):
        globals()["run_" + sh["part"]](sh, rec, M)
    import matplotlib.pyplot as plt
    plt.close("all")


def axes(n=2):
    """Axes, of which the first is the current one."""
    import matplotlib.pyplot as plt
    plt.close("all")
    out = [plt.figure().add_subplot() for _ in range(n)]
    plt.figure(out[0].figure.number)
    return out


def ortho():
    return importlib.import_module("magpie.plots.ortho")


def view(c, radius):
    R = rot.shortest(vec(1.5*PI, c[1]), np.array([0., 0., 1.])) if c[1] < PI - 1e-12 else None
    if R is None:
        # from the south pole: about the axis perpendicular to the start meridian
        u = vec(1.5*PI, PI)
        n = np.cross(vec(1.5*PI, PI/2), u)
        R = rot.axis_angle(n/np.linalg.norm(n), -PI)
    return radius*R @ rot.Rz(1.5*PI - c[0])


def make(M, c, box):
    o = M.densegrid.Heal2Ortho()
    o.setup_map(2)
    o.setup_box(box[0], 6, center=list(c), y_length=box[1], y_grid=4, radius=box[2])
    return o


def lines(ax):
    out = [np.array(ln.get_xydata(), float) for ln in ax.lines]
    for col in ax.collections:
        if hasattr(col, "get_segments"):
            out += [np.array(s, float) for s in col.get_segments()]
    return out


def content(ax):
    return (len(ax.lines) + len(ax.collections) + len(ax.patches), len(ax.texts), len(ax.images), ax.get_xlim(), ax.get_ylim(),
            ax.axison, [t.get_text() for t in ax.get_xticklabels()])


def unproject(p, V, radius):
    """Coordinates of the visible points of a drawn line."""
    p = p[np.isfinite(p).all(axis=1)]
    z2 = radius**2 - (p**2).sum(axis=1)
    z = np.sqrt(np.maximum(z2, 0.))
    v = np.column_stack([p, z])/radius @ (V/radius)
    return rot.ang(v), z2, v


def number(s):
    m = re.search(r"[-+\u2212]?\d+(?:\.\d*)?", s)
    return None if m is None else float(m.group(0).replace("\u2212", "-"))


def digits(s):
    m = re.search(r"\d+(?:\.(\d*))?", s)
    return None if m is None else len(m.group(1) or "")


def turn(d):
    return (d + PI) % TWO - PI


def run_grid(sh, rec, M):
    c = cases(sh["t"])[sh["c"]]
    for box, (dt, dp) in itertools.product(BOXES, STEPS + (((5., None), (60., 12.), (22.5, 90.), (18., 24.))
                                                           if sh["t"] == "thorough" else ())):
        o = make(M, c, box)
        radius, V = box[2], view(c, box[2])
        for given in (True, False):
            A, B = axes()
            key = {"centre": c, "box": box, "steps": (dt, dp), "axes given": given}
            with rec.case(key):
                was = content(A if given else B)
                kw = {"ax": B} if given else {}
                rec.call(ortho().PlotOrtho(o).plot_grid, dtheta=dt, color="r", linestyle=":", linewidth=3., **(
                    {} if dp is None else {"dphi": dp}), **kw)
                rec.check(content(A if given else B) == was, key, "draws on its axes only")
                ax = B if given else A
                P, T = np.deg2rad(dt if dp is None else dp), np.deg2rad(dt)
                np_, nt = int(round(TWO/P)), int(round(PI/T))
                seen_p, seen_t = {}, {}
                for q, ln in enumerate(lines(ax)):
                    (ph, th), z2, v = unproject(ln, V, radius)
                    ok = bool(np.all(z2 > -1e-9*radius**2))
                    rec.check(ok, dict(key, line=q), "line on the disc")
                    if len(ph) == 0:
                        continue
                    # rounding grows towards the limb
                    tol = 1e-7 + 1e-8/np.sqrt(np.maximum(z2, 1e-12))*radius
                    s = np.sin(th)
                    k = int(np.rint(np.median(ph[s > 0.02])/P)) % np_ if np.any(s > 0.02) else 0
                    j = int(np.rint(np.median(th)/T))
                    mer = bool(np.all(np.abs(turn(ph - k*P))*s < tol))
                    par = bool(np.all(np.abs(th - j*T) < np.where(s > 1e-3, tol, 1e-3)))
                    rec.check(mer or par, dict(key, line=q), "every line is a meridian or a parallel of the grid",
                              phi=ph[:5], theta=th[:5])
                    if mer:
                        seen_p.setdefault(k, []).append(ln)
                    if par:
                        seen_t.setdefault(j, []).append(ln)
                for k in range(np_):
                    w = vec(k*P, np.linspace(0.02, PI - 0.02, 200))
                    covered(rec, dict(key, meridian=k), w, V, seen_p.get(k, []), radius)
                for j in range(1, nt):
                    w = vec(np.linspace(0., TWO, 400), j*T)
                    covered(rec, dict(key, parallel=j), w, V, seen_t.get(j, []), radius)
                extra = set(seen_t) - set(range(nt + 1))
                rec.check(not extra, key, "no other parallels", got=sorted(extra))
                for ln in ax.lines:
                    rec.check(ln.get_color() == "r" and ln.get_linestyle() == ":" and ln.get_linewidth() == 3., key, "style")
                rec.outcome((len(seen_p), len(seen_t)))


def covered(rec, key, w, V, drawn, radius):
    """Every visible point of a line of the grid is on the drawn line, of which two neighbouring points are joined."""
    p = w @ V.T
    p = p[p[:, 2] > 0.2*radius][::2, :2]
    if len(p) == 0:
        return
    a = np.concatenate([d[:-1] for d in drawn] + [np.zeros((0, 2))])
    b = np.concatenate([d[1:] for d in drawn] + [np.zeros((0, 2))])
    ok = np.isfinite(a).all(axis=1) & np.isfinite(b).all(axis=1)
    a, d = a[ok], (b - a)[ok]
    if len(a) == 0:
        rec.check(False, key, "line of the grid is drawn")
        return
    u = np.einsum("psk,sk->ps", p[:, None] - a, d)/np.maximum((d*d).sum(axis=1), 1e-300)
    q = a + np.clip(u, 0., 1.)[:, :, None]*d
    far = np.linalg.norm(q - p[:, None], axis=2).min(axis=1).max()
    rec.check(far < 3e-3*radius, key, "line of the grid is drawn in full", gap=far)


def run_sphere(sh, rec, M):
    c = cases(sh["t"])[sh["c"]]
    zeros = ([0., PI/2], [2.1, 0.9], [6.1, 2.2], [0.01, 0.3])
    shifts = ([0., 0.], [1.5, 2.], [-3., -2.5])
    opts = list(itertools.product((0, 1, 2), (False, True), (False, True)))
    combos = []
    for a, (box, st, z, s, op) in enumerate(itertools.product(BOXES, STEPS, zeros, shifts, opts)):
        i = (BOXES.index(box), STEPS.index(st), zeros.index(z), shifts.index(s), opts.index(op))
        # every pair of values
        if sh["t"] == "thorough" or (i[0] + i[1] + 2*i[2] + i[3]*3 + i[4]) % 12 == sh["c"] % 12:
            combos.append((box, st, z, s, op))
    for q, (box, (dt, dp), zero, shift, (dec, lonlat, turned)) in enumerate(combos):
        o = make(M, c, box)
        V = view(c, box[2])
        given = q % 2 == 0
        A, B = axes()
        key = {"centre": c, "box": box, "steps": (dt, dp), "zero": zero, "shift": shift, "decimals": dec, "lonlat": lonlat,
               "rotation": turned, "axes given": given}
        with rec.case(key):
            was = content(A if given else B)
            kw = {"ax": B} if given else {}
            if dp is not None:
                kw["dphi"] = dp
            rec.call(ortho().PlotOrtho(o).plot_labels, dtheta=dt, decimals=dec, lonlat=lonlat, zeropoint=list(zero),
                     shift=list(shift), onsphere=True, userotation=turned, ha="right", va="bottom", color="b", **kw)
            rec.check(content(A if given else B) == was, key, "draws on its axes only")
            ax = B if given else A
            P = dt if dp is None else dp
            want = []
            for k in range(int(round(360./P))):
                want.append((vec(np.deg2rad(k*P - shift[0]), zero[1]), k*P))
            for j in range(1, int(round(180./dt))):
                val = 90. - j*dt if lonlat else j*dt
                want.append((vec(zero[0], np.deg2rad(j*dt - shift[1])), val))
            left = [(t.get_position(), t) for t in ax.texts]
            n = 0
            for v, val in want:
                x, y, z = V @ v
                inside = min(box[0]/2 - abs(x), box[1]/2 - abs(y), z)
                hit = [i for i, (p, t) in enumerate(left) if np.hypot(p[0] - x, p[1] - y) < 1e-6
                       and abs(number(t.get_text()) - val) <= 0.5001*10.**-dec]
                if inside > 1e-6:
                    rec.check(len(hit) > 0, dict(key, label=val), "label at its place", x=x, y=y,
                              got=[(p, t.get_text()) for p, t in left][:6])
                elif inside < -1e-6:
                    rec.check(len(hit) == 0, dict(key, label=val), "label outside of the view")
                if hit:
                    n += 1
                    t = left.pop(hit[0])[1]
                    rec.check(t.get_ha() == "right" and t.get_va() == "bottom" and t.get_color() == "b" and
                              digits(t.get_text()) == dec, dict(key, label=val), "style of the label", got=t.get_text())
                    a = np.deg2rad(t.get_rotation())
                    if not turned:
                        rec.check(a == 0., dict(key, label=val), "label is not turned")
                    else:
                        pole = V[:, 2]
                        s = 1. if pole[2] > -1e-12 else -1.
                        d = (s*pole[:2] - [x, y])*s
                        if np.hypot(*d) > 1e-6 and abs(pole[2]) > 1e-12:
                            # seen from the inside of the sphere, x to the left
                            up = np.array([np.sin(a), np.cos(a)])
                            rec.check(np.hypot(*(up - d/np.hypot(*d))) < 1e-6, dict(key, label=val), "label points to the pole",
                                      got=t.get_rotation())
            rec.check(len(left) == 0, key, "no other labels", got=[(p, t.get_text()) for p, t in left][:5])
            rec.outcome(n)


def run_axis(sh, rec, M):
    c = cases(sh["t"])[sh["c"]]
    more = ((5., None), (60., 12.), (22.5, 90.), (18., 24.)) if sh["t"] == "thorough" else ()
    for q, (box, (dt, dp), dec, lonlat) in enumerate(itertools.product(BOXES[:3], STEPS + more, (0, 1, 2), (False, True))):
        o = make(M, c, box)
        V, radius = view(c, box[2]), box[2]
        given = q % 2 == 0
        n = (100, 1000, 37)[q % 3]
        A, B = axes()
        key = {"centre": c, "box": box, "steps": (dt, dp), "decimals": dec, "lonlat": lonlat, "points": n, "axes given": given}
        with rec.case(key):
            was = content(A if given else B)
            kw = {"ax": B} if given else {}
            if dp is not None:
                kw["dphi"] = dp
            rec.call(ortho().PlotOrtho(o).plot_labels, dtheta=dt, decimals=dec, lonlat=lonlat, interpaxis=n, **kw)
            rec.check(content(A if given else B) == was, key, "draws on its axes only")
            ax = B if given else A
            P = np.deg2rad(dt if dp is None else dp)
            T = np.deg2rad(dt)
            for name, axis in (("x", ax.xaxis), ("y", ax.yaxis)):
                got = list(zip(axis.get_ticklocs(), [t.get_text() for t in axis.get_ticklabels()]))
                fine = 40001
                s = np.linspace(-0.5, 0.5, fine)*box[0 if name == "x" else 1]
                p = np.column_stack([s, np.full(fine, -box[1]/2)] if name == "x" else [np.full(fine, box[0]/2), s])
                (ph, th), z2, v = unproject(p, V, radius)
                val = ph if name == "x" else th
                step = np.abs(turn(np.diff(val))) if name == "x" else np.abs(np.diff(th))
                # how far a position may be off: curvature between the points of the axis
                width = fine//n + 2
                for at, text in got:
                    i = int(np.rint((at/box[0 if name == "x" else 1] + 0.5)*(fine - 1)))
                    rec.check(0 <= i < fine and z2[min(max(i, 0), fine - 1)] > 0., dict(key, axis=name, tick=text), "tick on the axis")
                    i = min(max(i, 0), fine - 1)
                    f = number(text)
                    if f is None:
                        rec.check(False, dict(key, axis=name, tick=text), "tick has a number")
                        continue
                    f = np.deg2rad(f)
                    if name == "y" and lonlat:
                        f = PI/2 - f
                    lo, hi = max(i - width, 0), min(i + width, fine - 2)
                    d = val[lo:hi + 1] - f
                    d = np.abs(turn(d) if name == "x" else d)
                    half = 0.5001*np.deg2rad(10.**-dec)
                    # the value must be met within the neighbouring points of the axis, and nearly so at the tick
                    rec.check(d.min() <= half + 2.*step[lo:hi + 1].max(), dict(key, axis=name, tick=text),
                              "value at the tick", at=at, off=d.min())
                    here = abs(turn(val[i] - f)) if name == "x" else abs(val[i] - f)
                    span = step[lo:hi + 1].sum()
                    bend = step[lo:hi + 1].max()/max(step[lo:hi + 1].min(), 1e-300)
                    if bend < 1.05:
                        rec.check(here <= half + 0.05*span + 1e-9, dict(key, axis=name, tick=text), "value at the tick, precisely",
                                  at=at, off=here)
                    rec.check(digits(text) == dec, dict(key, axis=name, tick=text), "decimals")
                # every value of the grid that the axis crosses has a tick there
                grid = P*np.arange(int(round(TWO/P))) if name == "x" else T*np.arange(1, int(round(PI/T)))
                for g in grid:
                    d = turn(val - g) if name == "x" else val - g
                    cross = np.where((d[:-1]*d[1:] < 0.) & (np.abs(d[:-1]) < 1.) & (z2[:-1] > 0.) & (z2[1:] > 0.))[0]
                    for i in cross:
                        m = width
                        a, b = i - 2*m, i + 2*m
                        if a < 0 or b >= fine or not np.all(z2[a:b] > 0.):
                            continue
                        # crossings that turn back between two points of the axis may be missed
                        dd = np.diff(turn(np.diff(val[a:b])) if False else np.unwrap(val[a:b]))
                        if np.any(dd*dd[0] <= 0.):
                            continue
                        u = np.rad2deg(PI/2 - g if name == "y" and lonlat else g)
                        near = [t for at, t in got if abs(at - s[i]) <= 1.5*m*(s[1] - s[0]) and
                                number(t) is not None and abs(number(t) - u) <= 0.5001*10.**-dec]
                        rec.check(len(near) > 0, dict(key, axis=name, value=float(u)), "value on the axis has its tick", at=s[i])
                rec.outcome((name, len(got)))


def run_rest(sh, rec, M):
    c = cases(sh["t"])[sh["c"]]
    patches = ((0.3, 1.1, 0.4, 0.9), (0., TWO, 0.2, PI/2), (1.9, 2.6, 0.8, 1.6), (5.9, 6.28, 2., 3.), (3., 4.4, 1.1, 2.9),
               (0., 1., 0., 0.5))
    for box in BOXES:
        o = make(M, c, box)
        radius, V = box[2], view(c, box[2])
        for (a, b, t, u), div, lonlat, given in itertools.product(patches, (100, 4, 25), (False, True), (True, False)):
            A, B = axes()
            key = {"centre": c, "box": box, "patch": (a, b, t, u), "divisions": div, "lonlat": lonlat, "axes given": given}
            with rec.case(key):
                was = content(A if given else B)
                args = (a, b, PI/2 - u, PI/2 - t) if lonlat else (a, b, t, u)
                kw = {"ax": B} if given else {}
                rec.call(ortho().PlotOrtho(o).plot_polar_box, *args, lonlat=lonlat, divisions=div, color="g", **kw)
                rec.check(content(A if given else B) == was, key, "draws on its axes only")
                ax = B if given else A
                got = lines(ax)
                rec.check(len(got) > 0 and all(x.get_color() == "g" for x in ax.lines), key, "an outline is drawn")
                (ph, th), z2, v = unproject(np.concatenate(got), V, radius)
                edges = np.concatenate([vec(np.linspace(a, b, 400), t), vec(np.linspace(a, b, 400), u),
                                        vec(a, np.linspace(t, u, 400)), vec(b, np.linspace(t, u, 400))])
                if len(v):
                    dist = np.array([np.linalg.norm(edges - p, axis=1).min() for p in v[::3]])
                    rec.check(dist.max() < 0.012, key, "points lie on the outline of the patch", off=dist.max())
                for q, p in enumerate(itertools.product((a, b), (t, u))):
                    w = vec(*p)
                    z = (V @ w)[2]
                    if z > 1e-3*radius:
                        rec.check(len(v) and np.linalg.norm(v - w, axis=1).min() < 1e-6, dict(key, corner=q), "corners are drawn")
                if div >= 25:
                    vis = edges[(edges @ V.T)[:, 2] > 0.15*radius]
                    far = max((np.linalg.norm(v - p, axis=1).min() for p in vis[::7]), default=0.) if len(v) else float(len(vis))
                    rec.check(far < 4./div, key, "the outline is complete", gap=far)
                rec.outcome(len(v))
        for shape, given, back in itertools.product(((4, 6), (3, 5), (1, 1)), (True, False), (True, False)):
            A, B = axes()
            key = {"centre": c, "box": box, "image": shape, "axes given": given, "return": back}
            with rec.case(key):
                f = 1. + np.arange(np.prod(shape), dtype=float).reshape(shape)
                f.flat[-1] = np.nan
                g = f.copy()
                was = content(A if given else B)
                kw = {"ax": B} if given else {}
                cb = rec.call(ortho().PlotOrtho(o).imshow, f, returncb=back, vmin=-3., vmax=50., **kw)
                rec.check(content(A if given else B) == was, key, "draws on its axes only")
                ax = B if given else A
                rec.check(len(ax.images) == 1 and (cb is ax.images[0] if back else cb is None), key, "one image")
                im = ax.images[0]
                x0, x1, y0, y1 = im.get_extent()
                d = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
                rec.check(d.shape == shape and bool(np.all((d == g) | np.isnan(d) & np.isnan(g))) and im.origin == "lower" and
                          bool(np.allclose([x0, x1, y0, y1], [-box[0]/2, box[0]/2, -box[1]/2, box[1]/2], rtol=0, atol=1e-12)),
                          key, "cells of the map at their places", extent=(x0, x1, y0, y1), origin=im.origin)
                rec.check(im.get_clim() == (-3., 50.), key, "colour limits")
                rec.check(np.array_equal(f, g, equal_nan=True), key, "map is not changed")
                rec.outcome(shape)
        for inside, edge, given, cen in itertools.product((True, False), (True, False), (True, False), ([0., 0.], [0.3, -0.2])):
            A, B = axes()
            key = {"centre": c, "box": box, "inside": inside, "edge": edge, "axes given": given, "edge centre": cen}
            with rec.case(key):
                was = content(A if given else B)
                kw = {"ax": B} if given else {}
                rec.call(ortho().PlotOrtho(o).finalize, insphere=inside, outeredge=edge, edgecenter=list(cen), edgecolor="m",
                         edgelinewidth=2.5, edgelength=300, **kw)
                rec.check(content(A if given else B) == was, key, "draws on its axes only")
                ax = B if given else A
                lim = (box[0]/2, -box[0]/2) if inside else (-box[0]/2, box[0]/2)
                rec.check(np.allclose(ax.get_xlim(), lim, rtol=0, atol=1e-12) and
                          np.allclose(ax.get_ylim(), (-box[1]/2, box[1]/2), rtol=0, atol=1e-12), key, "limits",
                          got=(ax.get_xlim(), ax.get_ylim()))
                rec.check(not ax.axison, key, "axis is off")
                got = lines(ax)
                rec.check(len(got) == int(edge), key, "the edge is drawn if asked for")
                if edge and got:
                    circle(rec, key, got[0], radius, cen, 300)
                    rec.check(ax.lines[0].get_color() == "m" and ax.lines[0].get_linewidth() == 2.5, key, "style of the edge")
                rec.outcome(lim)


def circle(rec, key, p, radius, cen, n):
    d = p - cen
    a = np.arctan2(d[:, 1], d[:, 0])
    rec.check(bool(np.all(np.abs(np.hypot(d[:, 0], d[:, 1]) - radius) < 1e-9*(1. + radius))), key, "points on the circle")
    rec.check(bool(np.all(np.abs(p[0] - p[-1]) < 1e-9*(1. + radius))) and
              abs(abs(np.sum(turn(np.diff(a)))) - TWO) < 1e-6 if n > 3 else True, key, "the circle is closed")
    rec.check(len(p) == n, key, "length of the circle", got=len(p))


def run_flat(sh, rec, M):
    S = importlib.import_module("magpie.plots.shapes")
    for (a, b, t, u), div, given in itertools.product(((0., 1., 0., 1.), (-2., 3.5, 1., 1.25), (1e3, 2e3, -5., -4.)), (100, 2, 7),
                                                      (True, False)):
        A, B = axes()
        key = {"box": (a, b, t, u), "divisions": div, "axes given": given}
        with rec.case(key):
            was = content(A if given else B)
            kw = {"ax": B} if given else {}
            rec.call(S.plot_box, a, b, t, u, divisions=div, color="c", **kw)
            rec.check(content(A if given else B) == was, key, "draws on its axes only")
            ax = B if given else A
            p = np.concatenate(lines(ax))
            e = 1e-9*(1. + abs(b - a) + abs(u - t))
            on = (np.minimum(abs(p[:, 0] - a), abs(p[:, 0] - b)) < e) & (p[:, 1] > t - e) & (p[:, 1] < u + e) | \
                 (np.minimum(abs(p[:, 1] - t), abs(p[:, 1] - u)) < e) & (p[:, 0] > a - e) & (p[:, 0] < b + e)
            rec.check(bool(on.all()) and ax.lines[0].get_color() == "c", key, "points on the outline")
            for q in itertools.product((a, b), (t, u)):
                rec.check(np.abs(p - q).max(axis=1).min() < e, dict(key, corner=q), "corners are drawn")
            rec.check(abs(np.hypot(*np.diff(p, axis=0).T).sum() - 2*(b - a + u - t)) < 10*e, key, "once around")
            rec.outcome(len(p))
    for r, cen, n, given in itertools.product((1., 0.2, 300.), ([0., 0.], [3., -4.]), (1000, 5, 64), (True, False)):
        A, B = axes()
        key = {"circle": r, "centre": cen, "length": n, "axes given": given}
        with rec.case(key):
            was = content(A if given else B)
            kw = {"ax": B} if given else {}
            rec.call(S.plot_circle, r, center=list(cen), length=n, linestyle="--", **kw)
            rec.check(content(A if given else B) == was, key, "draws on its axes only")
            ax = B if given else A
            got = lines(ax)
            rec.check(len(got) == 1 and ax.lines[0].get_linestyle() == "--", key, "one circle")
            circle(rec, key, got[0], r, cen, n)
            rec.outcome(n)
    A, B = axes()
    with rec.case({"circle": "default"}):
        rec.call(S.plot_circle)
        circle(rec, {"circle": "default"}, lines(A)[0], 1., [0., 0.], 1000)
        rec.outcome(1)


def drawings(f):
    return (lambda p, ax: p.imshow(f, ax=ax), lambda p, ax: p.plot_grid(dtheta=30., ax=ax), lambda p, ax: p.plot_labels(ax=ax),
            lambda p, ax: p.plot_labels(onsphere=True, userotation=True, ax=ax),
            lambda p, ax: p.plot_polar_box(0.3, 1.4, 0.5, 1.2, ax=ax), lambda p, ax: p.finalize(ax=ax))


def dump(ax):
    return ([ln.get_xydata().tolist() for ln in ax.lines], [(t.get_position(), t.get_text(), t.get_rotation()) for t in ax.texts],
            [(np.asarray(i.get_array()).tolist(), tuple(i.get_extent())) for i in ax.images], ax.get_xlim(), ax.get_ylim(), ax.axison,
            list(ax.get_xticks()), [t.get_text() for t in ax.get_xticklabels()], list(ax.get_yticks()),
            [t.get_text() for t in ax.get_yticklabels()])


def run_history(sh, rec, M):
    """Drawings of two views in turn on two axes, one of which is set up again."""
    views = (([2., 1.2], BOXES[1]), ([0.2, 0.5], BOXES[0]), ([4., 2.2], BOXES[1]))
    f = np.arange(24.).reshape(4, 6)
    D = drawings(f)
    state = np.random.get_state()[1].copy()
    for seq in itertools.product([sh["c"]], range(6), range(6)):
        key = {"drawings": seq}
        with rec.case(key):
            A, B = axes()
            o, o2 = make(M, *views[0]), make(M, *views[1])
            p, p2 = rec.call(ortho().PlotOrtho, o), rec.call(ortho().PlotOrtho, o2)
            before = {k: np.copy(v) for k, v in vars(o2).items() if isinstance(v, np.ndarray)}
            rec.call(D[seq[0]], p, A)
            rec.call(D[seq[0]], p2, B)
            rec.call(D[seq[1]], p, A)
            rec.call(D[seq[1]], p2, B)
            rec.check(all(np.array_equal(v, getattr(o2, k), equal_nan=True) for k, v in before.items()), key,
                      "the view is not changed by drawing")
            c, box = views[2]
            o.setup_box(box[0], 6, center=list(c), y_length=box[1], y_grid=4, radius=box[2])
            rec.call(D[seq[2]], p2, B)
            A.clear()
            rec.call(D[seq[2]], p, A)
            got = dump(A), dump(B)
            C, E = axes()
            n, n2 = make(M, *views[2]), make(M, *views[1])
            D[seq[2]](ortho().PlotOrtho(n), C)
            for k in seq:
                D[k](ortho().PlotOrtho(n2), E)
            rec.check(repr(got[0]) == repr(dump(C)), key, "a view that was set up again is drawn as a new one")
            rec.check(repr(got[1]) == repr(dump(E)), key, "views do not mix")
            rec.check(np.array_equal(np.random.get_state()[1], state), key, "drawing does not draw random numbers")
            rec.outcome(seq)
