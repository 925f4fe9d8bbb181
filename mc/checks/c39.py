"""C39: every parameter counts, however small its change."""
import itertools

import healpy as hp
import numpy as np

from mc import rng, rot

SRC = True
MAPS = True
PI, TWO = np.pi, 2*np.pi
DELTA = {"quick": (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6),
         "thorough": (0.3, 1e-1, 3e-2, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 3e-5, 1e-5, 3e-6, 1e-6)}
FINE = {"quick": 1024, "thorough": 2048}
BOUNDS = {
    "quick": "every numerical parameter of the 9 remappers (boxes, radii, angles, lengths, centres, shifts, spins) at "
             "up to 8 base values (ordinary ones, 0, quarter turns, just under a full turn, poles), as they are and changed by +-1e-1, "
             "1e-2, ..., 1e-6, on new objects and on objects set up before at the base value; fields so fine (1e5 cells "
             "along an axis, HEALPix nside 1024) that thousands of sub-cells or points notice; grid remaps and "
             "re-binnings with edges changed by 1e-1..1e-10, overlaps of 1e-3..1e-12 with values to 1e12; rotations, shifts, "
             "spins, centres, ranges and projections changed by 1e-1..1e-12 to 2e-14",
    "thorough": "steps of 1-3-10 and HEALPix nside 2048",
}
ASSUMPTIONS = ["points within 3e-9 of a border between cells may count on either side",
               "remappers: changes below 1e-6 are not distinguished (their effect is within the borderline points)"]
NM = 40


def shards(tier):
    out = [{"part": "maps", "k": k} for k in range(NM)]
    out += [{"part": "grids", "k": k} for k in range(3)] + [{"part": "points", "k": k} for k in range(4)]
    return [dict(s, t=tier) for s in out]


def run(sh, rec, M):
    with np.errstate(all="ignore"):
        globals()["run_" + sh["part"]](sh, rec, M)


# ---------------------------------------------------------------- remappers

def values(n):
    """Values in [0, 1) that differ strongly between neighbouring cells."""
    return ((np.arange(n)*0.6180339887498949) % 1.).astype(np.float32)


K = 37
U = np.array(rng.mid(K))
RR = (33, 41)


def sub(lo, hi, n):
    e = lo + (hi - lo)*np.arange(n + 1)/n
    return e, 0.5*(e[1:] + e[:-1])


class Boxes:
    """Two-dimensional boxes: fine along one axis."""

    def __init__(self, M, kind, fine, log=False):
        self.M, self.kind, self.log = M, kind, log
        self.n = (100000, 3) if fine == "x" else (3, 100000)
        self.f = values(300000).reshape(self.n[1], self.n[0])
        self.base = dict(xmin=-3.1, xmax=3.3, ymin=-2.9, ymax=3.4, rmin=0.4, rmax=1.6, pmin=0.3, pmax=5.1, cx=0.13,
                         cy=-0.07, shift=0.7)
        self.more = dict(shift=(0., 0.5*PI, PI, 1.5*PI, TWO - 0.2, 6.1), cx=(0., -1.), cy=(0., 1.), rmin=(0.2,),
                         pmin=(0.15, PI), pmax=(PI, TWO - 0.12))
        if fine == "x":
            del self.base["ymin"], self.base["ymax"]
        else:
            del self.base["xmin"], self.base["xmax"]
        self.all = dict(xmin=-3.1, xmax=3.3, ymin=-2.9, ymax=3.4)
        self.all.update(self.base)

    def make(self, o, p):
        if o is None:
            o = (self.M.densegrid if self.kind == "dense" else self.M.montecarlo).Box2Ring()
        o.setup_box(p["xmin"], p["xmax"], self.n[0], p["ymin"], p["ymax"], self.n[1])
        a = (p["rmin"], p["rmax"], 2, 2)
        kw = dict(pmin=p["pmin"], pmax=p["pmax"], center=[p["cx"], p["cy"]], phi_shift=p["shift"])
        if self.kind == "dense":
            o.setup_polar(*a, rebin_r=RR[0], rebin_p=RR[1], **kw)
        elif self.log:
            o.setup_polar_log(*a, addzero=False, **kw)
        else:
            o.setup_polar_lin(*a, **kw)
        return o

    def cells(self, p):
        re = np.linspace(p["rmin"], p["rmax"], 3)
        if self.log:
            re = np.exp(np.linspace(np.log(p["rmin"]), np.log(p["rmax"]), 3))
        pe = np.linspace(p["pmin"], p["pmax"], 3)
        for i, j in itertools.product(range(2), range(2)):
            if self.kind == "dense":
                e, m = sub(re[j], re[j+1], RR[0])
                r, a = np.repeat(m, RR[1]), np.tile(sub(pe[i], pe[i+1], RR[1])[1], RR[0])
                w = np.repeat(e[1:]**2 - e[:-1]**2, RR[1])
            else:
                r = np.repeat(np.sqrt(re[j]**2 + U*(re[j+1]**2 - re[j]**2)), K)
                a, w = np.tile(pe[i] + U*(pe[i+1] - pe[i]), K), np.ones(K*K)
            a = a + p["shift"]
            x, y = p["cx"] + r*np.cos(a), p["cy"] + r*np.sin(a)
            yield [self.look(x, y, p, s) for s in itertools.product((-1, 1), repeat=2)], w

    def look(self, x, y, p, s):
        e = 3e-9
        i = np.floor((x + s[0]*e - p["xmin"])/(p["xmax"] - p["xmin"])*self.n[0]).astype(int)
        j = np.floor((y + s[1]*e - p["ymin"])/(p["ymax"] - p["ymin"])*self.n[1]).astype(int)
        return self.f[j, i]

    shape = (2, 2)


class Cubes:
    def __init__(self, M, kind, axis, log=False):
        self.M, self.kind, self.log, self.axis = M, kind, log, axis
        self.n = [2, 2, 2]
        self.n[axis] = 60000
        self.f = values(240000).reshape(self.n[1], self.n[0], self.n[2])
        self.all = dict(xmin=-3.1, xmax=3.3, ymin=-2.9, ymax=3.4, zmin=-3., zmax=3.2, rmin=0.4, rmax=1.6, cx=0.13,
                        cy=-0.07, cz=0.21)
        a = "xyz"[axis]
        self.base = {k: v for k, v in self.all.items() if k[0] in a + "r" or k == "c" + a}
        self.more = {"c" + a: (0., -1.), "rmin": (0.2,)}
        self.shape = (2, 12)

    def make(self, o, p):
        if o is None:
            o = (self.M.densegrid if self.kind == "dense" else self.M.montecarlo).Cube2Shell()
        o.setup_cube(p["xmin"], p["xmax"], self.n[0], p["ymin"], p["ymax"], self.n[1], p["zmin"], p["zmax"], self.n[2])
        a = (p["rmin"], p["rmax"], 2, 1)
        kw = dict(center=[p["cx"], p["cy"], p["cz"]])
        if self.kind == "dense":
            o.setup_polar(*a, rebin_r=7, rebin_shell=8, **kw)
        elif self.log:
            o.setup_polar_log(*a, addzero=False, **kw)
        else:
            o.setup_polar_lin(*a, **kw)
        return o

    def cells(self, p):
        re = np.linspace(p["rmin"], p["rmax"], 3)
        if self.log:
            re = np.exp(np.linspace(np.log(p["rmin"]), np.log(p["rmax"]), 3))
        v = np.array(hp.pix2vec(8, np.arange(768))).T
        v /= np.linalg.norm(v, axis=1)[:, None]
        own = hp.vec2pix(1, *v.T)
        from mc import ref_maps as rm
        u3 = np.array(rng.mid(9))
        for i, q in itertools.product(range(2), range(12)):
            if self.kind == "dense":
                e, m = sub(re[i], re[i+1], 7)
                w = v[own == q]
                pt = (m[:, None, None]*w[None]).reshape(-1, 3)
                wt = np.repeat(e[1:]**3 - e[:-1]**3, len(w))
            else:
                r, a, b = [g.ravel() for g in np.meshgrid(u3, u3, u3, indexing="ij")]
                ph, th = rm.pixel_points(hp, 1, q, a, b)
                pt = np.cbrt(re[i]**3 + r*(re[i+1]**3 - re[i]**3))[:, None]*rot.vec(ph, th)
                wt = np.ones(729)
            pt = pt + np.array([p["cx"], p["cy"], p["cz"]])
            yield [self.look(pt, p, s) for s in (-1, 1)], wt

    def look(self, pt, p, s):
        ind = []
        for k, a in enumerate("xyz"):
            lo, hi = p[a + "min"], p[a + "max"]
            e = s*3e-9 if k == self.axis else 1e-12
            ind.append(np.floor((pt[:, k] + e - lo)/(hi - lo)*self.n[k]).astype(int))
        return self.f[ind[1], ind[0], ind[2]]


_map = {}


def sky(ns):
    if ns not in _map:
        _map[ns] = values(12*ns*ns)
    return _map[ns]


class Skies:
    shape = (2, 2)

    def __init__(self, M, kind, what, ns):
        self.M, self.kind, self.what, self.ns = M, kind, what, ns
        self.f = sky(ns)
        self.base = dict(c0=1.1, c1=0.8)
        self.more = dict(c0=(0.3, 0.5*PI, PI, 6.1), c1=(0.2, 0.5*PI, 2.9))
        if what == "Heal2Ring":
            self.base.update(a0=0.2, a1=0.9, b0=0.3, b1=5.1, shift=0.7)
            self.more.update(shift=(0.15, 0.5*PI, PI, 1.5*PI, TWO - 0.15), b0=(0.15, PI), b1=(PI, TWO - 0.12), a0=(0.12,),
                             a1=(0.5*PI, PI - 0.12))
        elif what == "Heal2Polar":
            self.base.update(x=0.9, y=0.7, alpha=0.6)
            self.more.update(alpha=(0.15, 0.5*PI, PI, 1.5*PI, TWO - 0.15), x=(0.5*PI, PI, 6.1), y=(1.3, 3.))
        else:
            self.base.update(x=1.1, y=0.9, radius=1.3)
            self.more.update(radius=(1.,))
        self.all = self.base
        # values at which only one direction of change is allowed
        self.ends = dict(shift=(0., 1), alpha=(0., 1), c1=(0., 1), c0=(0., 1), b0=(0., 1))
        self.ends2 = dict(c1=(PI, -1), b1=(TWO, -1))
        if what != "Heal2Ring":
            self.ends.pop("shift"), self.ends.pop("b0")
            self.ends2.pop("b1")
        if what != "Heal2Polar":
            self.ends.pop("alpha")

    def make(self, o, p):
        if o is None:
            o = getattr(self.M.densegrid if self.kind == "dense" else self.M.montecarlo, self.what)()
        o.setup_map(self.ns)
        kw = dict(center=[p["c0"], p["c1"]])
        d = self.kind == "dense"
        if self.what == "Heal2Ring":
            if d:
                kw.update(rebin_alpha=RR[0], rebin_beta=RR[1])
            o.setup_polar_cap(p["a0"], p["a1"], 2, 2, beta_min=p["b0"], beta_max=p["b1"], beta_shift=p["shift"], **kw)
        else:
            if d:
                kw.update(rebin_x=RR[1], rebin_y=RR[0])
            kw.update(y_length=p["y"], y_grid=2)
            if self.what == "Heal2Polar":
                o.setup_box(p["x"], 2, alpha=p["alpha"], **kw)
            else:
                o.setup_box(p["x"], 2, radius=p["radius"], **kw)
        return o

    def cells(self, p):
        d = self.kind == "dense"
        for i, j in itertools.product(range(2), range(2)):
            if self.what == "Heal2Ring":
                ae, be = np.linspace(p["a0"], p["a1"], 3), np.linspace(p["b0"], p["b1"], 3)
                if d:
                    e, m = sub(ae[j], ae[j+1], RR[0])
                    th, ph = np.repeat(m, RR[1]), np.tile(sub(be[i], be[i+1], RR[1])[1], RR[0])
                    w = np.repeat(np.cos(e[:-1]) - np.cos(e[1:]), RR[1])
                else:
                    c = np.cos(ae[j:j+2])
                    th, ph = np.repeat(np.arccos(c[0] + U*(c[1] - c[0])), K), np.tile(be[i] + U*(be[i+1] - be[i]), K)
                    w = np.ones(K*K)
                v = rot.vec(ph, th) @ (rot.Rz(p["c0"]) @ rot.Ry(p["c1"]) @ rot.Rz(p["shift"])).T
            else:
                xe, ye = np.linspace(-p["x"]/2, p["x"]/2, 3), np.linspace(-p["y"]/2, p["y"]/2, 3)
                if d:
                    e, m = sub(ye[i], ye[i+1], RR[0])
                    x, y = np.tile(sub(xe[j], xe[j+1], RR[1])[1], RR[0]), np.repeat(m, RR[1])
                    w = np.repeat(np.sin(e[1:]) - np.sin(e[:-1]), RR[1])
                else:
                    s = np.sin(ye[i:i+2])
                    x, y = np.tile(xe[j] + U*(xe[j+1] - xe[j]), K), np.repeat(np.arcsin(s[0] + U*(s[1] - s[0])), K)
                    w = np.ones(K*K)
                if self.what == "Heal2Polar":
                    v = rot.vec(x, PI/2 - y) @ (rot.Rz(p["c0"]) @ rot.Ry(p["c1"] - PI/2) @ rot.Rx(p["alpha"])).T
                else:
                    x, y, w = x/p["radius"], y/p["radius"], np.ones(len(x))
                    v = np.stack([x, y, np.sqrt(1. - x*x - y*y)], axis=-1)
                    v = v @ (rot.Rz(p["c0"]) @ rot.Ry(p["c1"]) @ rot.Rz(-1.5*PI)).T
            yield self.look(v), w

    def look(self, v):
        a = np.cross(v, np.array([0., 0., 1.]))
        a /= np.linalg.norm(a, axis=1)[:, None]
        b = np.cross(v, a)
        e = 3e-9
        return [self.f[hp.vec2pix(self.ns, *(v + e*(s*a + t*b)).T)]
                for s, t in ((1, 0), (-1, 0), (0, 1), (0, -1))]


def specs(M, t):
    out = [("dense Box2Ring " + a, lambda a=a: Boxes(M, "dense", a)) for a in "xy"]
    out += [("mc Box2Ring%s %s" % (" log" if g else "", a), lambda a=a, g=g: Boxes(M, "mc", a, g))
            for a in "xy" for g in (False, True)]
    out += [("dense Cube2Shell " + "xyz"[a], lambda a=a: Cubes(M, "dense", a)) for a in range(3)]
    out += [("mc Cube2Shell%s %s" % (" log" if g else "", "xyz"[a]), lambda a=a, g=g: Cubes(M, "mc", a, g))
            for a in range(3) for g in (False, True)]
    out += [(k + " " + w, lambda k=k, w=w: Skies(M, k, w, FINE[t]))
            for k in ("dense", "mc") for w in ("Heal2Ring", "Heal2Polar", "Heal2Ortho") if (k, w) != ("mc", "Heal2Ortho")]
    return out


def bounds(spec, p):
    lo, hi, borderline = [], [], 0
    for cand, w in spec.cells(p):
        c = np.array(cand, float)
        a, b = c.min(axis=0), c.max(axis=0)
        borderline += int(np.count_nonzero(a != b))
        lo.append((w*a).sum()/w.sum())
        hi.append((w*b).sum()/w.sum())
    return np.array(lo).reshape(spec.shape), np.array(hi).reshape(spec.shape), borderline


def variants(spec, t):
    """(parameter, base set-up, changed set-up, change)."""
    for name in spec.base:
        tries = [(spec.all[name], (1, -1))] + [(v, (1, -1)) for v in spec.more.get(name, ())]
        for ends in ("ends", "ends2"):
            e = getattr(spec, ends, {}).get(name)
            if e:
                tries.append((e[0], (e[1],)))
        for q, (v, signs) in enumerate(tries):
            base = dict(spec.all, **{name: v})
            yield name, base, base, 0.
            for k, d in enumerate(DELTA[t]):
                # both directions at the first base value, alternating at the others
                for s in (signs if q == 0 else signs[k % len(signs):][:1]):
                    if d >= 0.1 and v in (0.12, 0.15, 0.2):
                        continue
                    new = v + s*d
                    if name in ("shift", "alpha", "c0", "b1", "pmax") and new >= TWO:
                        continue
                    yield name, base, dict(base, **{name: new}), s*d


def answer(rec, spec, o, p, layout):
    """Remapped field of the object set up as p says."""
    o = rec.call(spec.make, o, p)
    if spec.kind == "mc":
        if isinstance(spec, Cubes):
            g, n = rng.product_grid(rng.mid(9), 3, layout), 729
        else:
            g, n = rng.product_grid(rng.mid(K), 2, layout), K*K
        rng.scripted(lambda: rec.call(o.get_weights, mc_size=n, verbose=False), g*int(np.prod(spec.shape)))
    return o, np.asarray(rec.call(lambda: o.remap(spec.f, verbose=False)), float)


def run_maps(sh, rec, M):
    sp = specs(M, sh["t"])
    order = "block"
    q = -1
    for name, mk in sp:
        q += 1
        spec = mk()
        params = list(spec.base)
        for a, par in enumerate(params):
            if (q*7 + a) % NM != sh["k"]:
                continue
            old = None
            basis = None
            for nm, base, new, d in variants(spec, sh["t"]):
                if nm != par:
                    continue
                key = {"remap": name, "parameter": par, "from": base[par], "change": d}
                with rec.case(key):
                    if basis is not base[par]:
                        basis = base[par]
                        blo, bhi, _ = bounds(spec, base)
                    lo, hi, edge = bounds(spec, new)
                    # a change that nobody could see decides nothing
                    seen = bool(np.any((lo > bhi + 1e-7) | (hi < blo - 1e-7)))
                    rec.count("changes seen" if seen else "changes too small to see")
                    rec.count("borderline points", edge)
                    for reuse in (False, True):
                        o = None
                        if reuse:
                            o, g = answer(rec, spec, None, base, order)
                        o, g = answer(rec, spec, o, new, order)
                        ok = g.shape == lo.shape and bool(np.all((g >= lo - 1e-7) & (g <= hi + 1e-7)))
                        if not ok and spec.kind == "mc" and order == "block":
                            # the other order in which the random numbers may be drawn
                            o, g2 = answer(rec, spec, None if not reuse else answer(rec, spec, None, base, "point")[0],
                                           new, "point")
                            if g2.shape == lo.shape and bool(np.all((g2 >= lo - 1e-7) & (g2 <= hi + 1e-7))):
                                order, ok = "point", True
                        rec.check(ok, dict(key, reused=reuse), "remap with a slightly different parameter", got=g,
                                  low=lo, high=hi, at_base=blo)
                        rec.outcome(g)


# ---------------------------------------------------------------- grids

def fractions(e, n):
    lo = np.maximum(e[None, :-1], n[:-1, None])
    hi = np.minimum(e[None, 1:], n[1:, None])
    return np.clip(hi - lo, 0., None)


SMALL = [10.**-k for k in range(1, 13)]


def run_grids(sh, rec, M):
    R, B = M.remap, M.one_d.rebin_1d
    if sh["k"] == 0:
        base = dict(L=2., o=0.25, Lo=2., oo=0.25)
        for n, m in ((4, 4), (4, 3), (3, 8), (1, 1), (50, 50), (50, 7)):
            f = 1. + 10.*values(n).astype(float)
            for par in base:
                for d in SMALL:
                    for s in (1, -1):
                        p = dict(base, **{par: base[par] + s*d})
                        e = p["o"] + p["L"]*np.arange(n + 1)/n
                        new = p["oo"] + p["Lo"]*np.arange(m + 1)/m
                        key = {"grid2grid": (n, m), "parameter": par, "change": s*d}
                        W = fractions(e, new)/(p["Lo"]/m)
                        with rec.case(key):
                            g = rec.call(R.grid2grid1D, f, p["L"], m, origin=p["o"], originout=p["oo"],
                                         boxsizeout=p["Lo"])
                            w = W @ f
                            rec.check(bool(np.all(np.abs(g - w) <= 1e-13*n*11)), key, "1D", got=g, want=w)
                            rec.outcome(g)
                        if n > 8 or m > 8:
                            continue
                        with rec.case(dict(key, dim=2)):
                            for ax in range(2):
                                q = [dict(base), dict(base)]
                                q[ax] = p
                                F = np.outer(f, 1. + np.arange(3)) if ax == 0 else np.outer(1. + np.arange(3), f)
                                nn, mm = ([n, 3], [m, 2]) if ax == 0 else ([3, n], [2, m])
                                Ws = []
                                for a in range(2):
                                    e = q[a]["o"] + q[a]["L"]*np.arange(nn[a] + 1)/nn[a]
                                    new = q[a]["oo"] + q[a]["Lo"]*np.arange(mm[a] + 1)/mm[a]
                                    Ws.append(fractions(e, new)/(q[a]["Lo"]/mm[a]))
                                arg = [[q[0][k], q[1][k]] for k in ("L", "o", "oo", "Lo")]
                                g = rec.call(R.grid2grid2D, F, arg[0], mm, origin=arg[1], originout=arg[2],
                                             boxsizeout=arg[3])
                                rec.check(bool(np.all(np.abs(g - Ws[0] @ F @ Ws[1].T) <= 1e-12*33)),
                                          dict(key, dim=2, axis=ax), "2D")
                                for at in range(3):
                                    # the same as a slab of a cube
                                    F3 = np.repeat(np.expand_dims(F, at), 2, axis=at)
                                    a3 = [list(v) for v in arg]
                                    for v, c in zip(a3, (1., 0., 0., 1.)):
                                        v.insert(at, c)
                                    m3 = list(mm)
                                    m3.insert(at, 1)
                                    g3 = rec.call(R.grid2grid3D, F3, a3[0], m3, origin=a3[1], originout=a3[2],
                                                  boxsizeout=a3[3])
                                    rec.check(bool(np.all(np.abs(np.squeeze(g3, axis=at) - Ws[0] @ F @ Ws[1].T)
                                                          <= 1e-12*33)), dict(key, dim=3, axis=(ax, at)), "3D")
    if sh["k"] == 1:
        # slivers: cells that overlap by very little and hold very much
        for d in SMALL:
            for big in (1., 1e3, 1e6, 1e9, 1e12, 1e15):
                key = {"sliver": d, "value": big}
                with rec.case(key):
                    for n in (2, 3, 5):
                        for k in range(n - 1):
                            f = np.ones(n)
                            for up in (0, 1):
                                f = np.ones(n)
                                f[k + up] = big
                                # one output cell that reaches into cell k by d, or beyond it by d
                                o, L = (k + 1. - d, 0.5 + d) if up == 0 else (k + 0.5, 0.5 + d)
                                lo, hi = o, o + L
                                e = np.arange(n + 1.)
                                W = fractions(e, np.array([lo, hi]))[0]/L
                                w = W @ f
                                g = rec.call(R.grid2grid1D, f, float(n), 1, origin=0., originout=o, boxsizeout=L)
                                rec.check(abs(g[0] - w) <= 1e-12*w + 4e-16*n*n*big/L, key, "grid2grid",
                                          got=g, want=w, up=up, cell=k)
                                r = rec.call(B, e, f, np.array([lo, hi]))
                                rec.check(abs(r[0] - w) <= 1e-12*w + 4e-16*n*n*big/L, key, "rebin_1d",
                                          got=r, want=w, up=up, cell=k)
                                r = rec.call(B, e, f, np.array([lo, hi]), w=np.ones(n), sigma=f)
                                rec.check(abs(r[0][0] - w) <= 1e-12*w + 4e-16*n*n*big/L, key, "rebin_1d with weights",
                                          got=r[0], want=w, up=up, cell=k)
                                s = np.sqrt(W*L @ f**2)/L
                                rec.check(abs(r[1][0]/s - 1.) <= 1e-9 + 1e-15*n/d, key, "error", got=r[1], want=s,
                                          up=up, cell=k)
                                wt = np.ones(n)
                                wt[k + up] = big
                                r = rec.call(B, e, np.arange(n) + 1., np.array([lo, hi]), w=wt)
                                w = (W*wt) @ (np.arange(n) + 1.)/(W @ wt)
                                rec.check(abs(r[0]/w - 1.) <= 1e-9 + 1e-15*n/d, key, "large weight in a sliver",
                                          got=r, want=w, up=up, cell=k)
                                rec.outcome(r)
    if sh["k"] == 2:
        e0 = np.array([0., 0.4, 1.1, 1.7, 2.])
        n0 = np.array([0.1, 0.4, 0.9, 1.7, 1.95])
        f, s, w = np.array([3., -1., 4., 2.]), np.array([1., 2., 0.5, 3.]), np.array([1., 0.3, 2., 5.])
        for which in range(10):
            for d in SMALL:
                for sg in (1, -1):
                    e, n = e0.copy(), n0.copy()
                    (e if which < 5 else n)[which % 5] += sg*d
                    if np.any(np.diff(e) <= 0) or np.any(np.diff(n) <= 0):
                        continue
                    key = {"rebin edge": which, "change": sg*d}
                    with rec.case(key):
                        cov = fractions(e, n)/np.diff(e)
                        t = cov.sum(axis=1)
                        g = rec.call(B, e, f, n)
                        rec.check(bool(np.all(np.abs(g - cov @ f/t) < 1e-12)), key, "data", got=g, want=cov @ f/t)
                        g = rec.call(B, e, f, n, w=w, sigma=s)
                        c = cov*w
                        rec.check(bool(np.all(np.abs(g[0] - c @ f/c.sum(axis=1)) < 1e-12)), key, "weighted data")
                        x = np.sqrt(cov @ (w*s)**2)/c.sum(axis=1)
                        rec.check(bool(np.all(np.abs(g[1] - x) < 1e-12)), key, "errors", got=g[1], want=x)
                        for i in range(4):
                            g = rec.call(M.one_d.rebin_1d_single_bin_weights, e, n[i], n[i + 1])
                            rec.check(np.shape(g) == (4,) and
                                      bool(np.all(np.abs(g/np.sum(g) - cov[i]/t[i]) < 1e-12)), key,
                                      "weights of the bins", got=g, want=cov[i])
                        rec.outcome(x)


# ---------------------------------------------------------------- points

def run_points(sh, rec, M):
    """Continuous functions: the result moves exactly as it should."""
    C, R = M.coords, M.randoms
    k = np.arange(40)
    phi, th = (k*0.9 + 0.17) % TWO, 0.4 + (k*0.61) % 2.3
    x, y, z = 1.7*np.sin(k*1.1) + 0.01, 1.3*np.sin(k*2.3) - 0.02, 1.1*np.sin(k*0.7) + 0.03
    x[np.hypot(x, y) < 0.3] += 0.9

    def away(got, v):
        """Largest distance between the positions (got: phi, theta) and the unit vectors v."""
        return float(np.max(np.abs(rot.vec(np.asarray(got[0]), np.asarray(got[1])) - v)))

    V = rot.vec(phi, th)
    bases = {"ordinary": 0.83, "zero": 0., "quarter": 0.5*PI, "half": PI, "three quarters": 1.5*PI}

    def steps(lo=-np.inf, hi=np.inf):
        for nm, b in bases.items():
            for d in SMALL:
                for s in (1, -1):
                    if lo <= b + s*d <= hi:
                        yield nm, s*d, b + s*d

    def wrapped(a, b):
        return np.abs((np.asarray(a) - b + PI) % TWO - PI)
    if sh["k"] == 0:
        for nm, d, b in steps(1e-13, TWO - 1e-13):
            key = {"angle": nm, "change": d}
            with rec.case(key):
                g = rec.call(C.rotate_polar, phi.copy(), b)
                rec.check(float(np.max(wrapped(g, phi + b))) < 4e-15, key, "rotate_polar")
                for q in (0, 7, 23):
                    g = rec.call(C.rotate_polar, float(phi[q]), b)
                    rec.check(float(wrapped(g, phi[q] + b)) < 4e-15, key, "rotate_polar of one angle")
                rec.outcome(g)
        for nm, d, b in steps(-TWO, TWO):
            key = {"shift": nm, "change": d}
            with rec.case(key):
                g = rec.call(C.usphere_phi_shift, phi.copy(), b)
                rec.check(float(np.max(wrapped(g, phi + b))) < 4e-15, key, "usphere_phi_shift")
                g = rec.call(C.usphere_phi_shift, float(phi[3]), b)
                rec.check(float(wrapped(g, phi[3] + b)) < 4e-15, key, "usphere_phi_shift of one angle")
                rec.outcome(g)
        for n in (1, 2, 3, 8):
            pe = np.linspace(0., TWO, n + 1)
            f = 1. + 10.*values(n*2).astype(float).reshape(n, 2)
            for j in range(n + 1):
                for d in SMALL:
                    for s in (1, -1):
                        b = pe[j] + s*d
                        if not 0. < b < TWO:
                            continue
                        key = {"rotated grid": n, "shift": j, "change": s*d}
                        with rec.case(key):
                            g = rec.call(C.rotate_polar_grid, pe, f, b)
                            q = b/(TWO/n)
                            a = int(np.floor(q))
                            u = q - a
                            w = (1. - u)*np.roll(f, -a, axis=0) + u*np.roll(f, -a - 1, axis=0)
                            rec.check(float(np.max(np.abs(g - w))) < 1e-12, key, "rotate_polar_grid", got=g, want=w)
                            rec.outcome(g)
    if sh["k"] == 1:
        names = ("phi_end", "theta_end", "phi_start", "theta_start")
        for par in range(4):
            for nm, d, b in steps(0., TWO if par % 2 == 0 else PI):
                p = [1.3, 0.9, 0.4, 2.]
                p[par] = b
                u, v = rot.vec(p[2], p[3]), rot.vec(p[0], p[1])
                if abs(u @ v) > 1 - 1e-7:
                    continue
                key = {"usphere_rotate": names[par], "at": nm, "change": d}
                with rec.case(key):
                    g = rec.call(C.usphere_rotate, phi, th, p[0], p[1], phi_start=p[2], theta_start=p[3])
                    rec.check(away(g, V @ rot.shortest(u, v).T) < 3e-14, key, "usphere_rotate")
                    rec.outcome(g)
        # from a place to one just beside it
        for t0 in (0.4, 0.5*PI, 2.6):
            for d in SMALL:
                for dp, dt in ((1, 0), (0, 1), (-1, 1), (0, -1)):
                    u, v = rot.vec(1.1, t0), rot.vec(1.1 + dp*d, t0 + dt*d)
                    key = {"usphere_rotate": "nearby", "theta": t0, "step": (dp*d, dt*d)}
                    with rec.case(key):
                        g = rec.call(C.usphere_rotate, phi, th, 1.1 + dp*d, t0 + dt*d, phi_start=1.1, theta_start=t0)
                        # to first order: displacement by (u x v) x r
                        n = np.cross(u, v)
                        s = np.sqrt(n @ n)
                        W = V @ rot.axis_angle(n/s, np.arctan2(s, u @ v)).T
                        rec.check(away(g, W) < (3e-14 if d > 1e-11 else 2e-12), key, "rotation by a small angle",
                                  worst=away(g, W))
                        rec.outcome(g)
    if sh["k"] == 2:
        names = ("phi_start", "theta_start", "phi_end", "theta_end")
        for par in range(4):
            for nm, d, b in steps(0., TWO if par % 2 == 0 else PI):
                p = [0.4, 2., 1.3, 0.9]
                p[par] = b
                key = {"usphere_shift": names[par], "at": nm, "change": d}
                with rec.case(key):
                    g = rec.call(C.usphere_shift, phi, th, *p)
                    m = rot.Rz(p[2]) @ rot.Ry(p[3] - p[1]) @ rot.Rz(-p[0])
                    rec.check(away(g, V @ m.T) < 3e-14, key, "usphere_shift", worst=away(g, V @ m.T))
                    rec.outcome(g)
        names = ("phi_center", "theta_center", "alpha")
        for par in range(3):
            for nm, d, b in steps(0., PI if par == 1 else TWO):
                p = [0.4, 2., 0.7]
                p[par] = b
                key = {"usphere_spin": names[par], "at": nm, "change": d}
                with rec.case(key):
                    g = rec.call(C.usphere_spin, phi, th, *p)
                    m = rot.axis_angle(rot.vec(p[0], p[1]), p[2])
                    rec.check(away(g, V @ m.T) < 3e-14, key, "usphere_spin", worst=away(g, V @ m.T))
                    rec.outcome(g)
        o = M.densegrid.Heal2Ortho()
        o.setup_map(1)
        for par in range(2):
            for nm, d, b in steps(0., PI if par == 1 else TWO):
                p = [0.4, 2.]
                p[par] = b
                key = {"Heal2Ortho.transform": ("phi", "theta")[par], "at": nm, "change": d}
                with rec.case(key):
                    n = M.densegrid.Heal2Ortho()
                    n.setup_map(1)
                    n.setup_box(2., 1, center=list(p), radius=1.4)
                    v = V @ (rot.Rz(p[0]) @ rot.Ry(p[1]) @ rot.Rz(-1.5*PI))
                    see = v[:, 2] > 0.05
                    # a new object, and one that has looked at the base place
                    o.setup_box(2., 1, center=[q - (d if i == par else 0.) for i, q in enumerate(p)], radius=1.4)
                    o.transform(phi, th)
                    o.setup_box(2., 1, center=list(p), radius=1.4)
                    for w, ob in (("new", n), ("used", o)):
                        g = rec.call(ob.transform, phi, th)
                        e = np.hypot(g[0] - 1.4*v[:, 0], g[1] - 1.4*v[:, 1])[see]
                        rec.check(bool(np.all(e < 1e-13)), dict(key, object=w), "transform", worst=np.max(e))
                    rec.outcome(g)
    if sh["k"] == 3:
        for par in range(3):
            for base in (0., 0.3, -1., 1e3):
                for d in SMALL:
                    for s in (1, -1):
                        c = [0.2, -0.1, 0.3]
                        c[par] = base + s*d
                        key = {"center": par, "at": base, "change": s*d}
                        tol = 3e-15*(1. + abs(base))
                        with rec.case(key):
                            a = [x, y, z]
                            dx = [v - w for v, w in zip(a, c)]
                            if par < 2:
                                r, p = rec.call(C.cart2polar, x, y, center=c[:2])
                                rec.check(float(np.max(np.abs(r*np.cos(p) - dx[0]))) < tol*3 and
                                          float(np.max(np.abs(r*np.sin(p) - dx[1]))) < tol*3, key, "cart2polar")
                                q = rec.call(C.polar2cart, abs(x), phi, center=c[:2])
                                rec.check(float(np.max(np.abs(q[0] - c[0] - abs(x)*np.cos(phi)))) < tol and
                                          float(np.max(np.abs(q[1] - c[1] - abs(x)*np.sin(phi)))) < tol, key,
                                          "polar2cart")
                            if par == 2 and base == 1e3:
                                continue  # seen almost along the axis the angle itself is not exact
                            r, p, t = rec.call(C.cart2sphere, x, y, z, center=c)
                            v = rot.vec(p, t)*r[:, None]
                            rec.check(float(np.max(np.abs(v - np.stack(dx, axis=-1)))) < 1e-13*(1. + abs(base)), key,
                                      "cart2sphere")
                            q = rec.call(C.sphere2cart, abs(x), phi, th, center=c)
                            v = rot.vec(phi, th)*abs(x)[:, None] + np.array(c)
                            rec.check(float(np.max(np.abs(np.stack(q, axis=-1) - v))) < tol, key, "sphere2cart")
                            rec.outcome(r)
        for d in SMALL:
            for s in (1, -1):
                key = {"ranges": s*d}
                with rec.case(key):
                    for u in (0.23, 0.77):
                        def one(fn, *a, **kw):
                            return np.ravel(rec.call(lambda: rng.constant(lambda: fn(2, *a, **kw), u)))
                        for lo, hi in ((0.3 + s*d, 1.2), (0.3, 1.2 + s*d), (0.3, 0.3 + d), (max(s*d, 0.), 1.2)):
                            w = lo + u*(hi - lo)
                            w2 = np.sqrt(lo**2 + u*(hi**2 - lo**2))
                            w3 = np.cbrt(lo**3 + u*(hi**3 - lo**3))
                            g = one(R.randoms_1d, xmin=lo, xmax=hi)
                            rec.check(np.all(np.abs(g - w) < 4e-15), key, "randoms_1d", got=g, want=w)
                            g = one(R.randoms_2d, mins=[lo, 0.], maxs=[hi, 1.])
                            rec.check(abs(g[0] - w) < 4e-15 and abs(g[2] - u) < 4e-15, key, "randoms_2d")
                            g = one(R.randoms_2d, mins=[0., lo], maxs=[1., hi])
                            rec.check(abs(g[2] - w) < 4e-15, key, "randoms_2d")
                            for ax in range(3):
                                mn, mx = [0.]*3, [1.]*3
                                mn[ax], mx[ax] = lo, hi
                                g = one(R.randoms_3d, mins=mn, maxs=mx)
                                rec.check(abs(g[2*ax] - w) < 4e-15, key, "randoms_3d")
                            g = one(R.randoms_polar, r_min=lo, r_max=hi)
                            rec.check(abs(g[0] - w2) < 6e-15, key, "randoms_polar r")
                            g = one(R.randoms_polar, phi_min=lo, phi_max=hi)
                            rec.check(abs(g[2] - w) < 6e-15, key, "randoms_polar phi")
                            g = one(R.randoms_sphere_r, r_min=lo, r_max=hi)
                            rec.check(abs(g[0] - w3) < 6e-15, key, "randoms_sphere_r")
                            g = one(R.randoms_sphere, r_min=lo, r_max=hi)
                            rec.check(abs(g[0] - w3) < 6e-15, key, "randoms_sphere r")
                            for fn, off in ((R.randoms_usphere, 0), (R.randoms_sphere, 2)):
                                g = one(fn, phi_min=lo, phi_max=hi)
                                rec.check(abs(g[off] - w) < 6e-15, key, "random longitudes")
                                g = one(fn, theta_min=lo, theta_max=hi)
                                c = np.cos(lo) + u*(np.cos(hi) - np.cos(lo))
                                c1 = np.cos(lo) + (1. - u)*(np.cos(hi) - np.cos(lo))
                                rec.check(min(abs(np.cos(g[off + 2]) - c), abs(np.cos(g[off + 2]) - c1)) < 1e-14 and
                                          lo - 1e-14 <= g[off + 2] <= hi + 1e-14, key, "random latitudes")
                    rec.outcome(g)
                    # areas and edges
                    re, pe = np.array([0.3, 0.9, 1.4]), np.array([0.2, 0.8, 2.])
                    for q in range(6):
                        a, b = re.copy(), pe.copy()
                        (a if q < 3 else b)[q % 3] += s*d
                        w = 0.5*(a[1:]**2 - a[:-1]**2)[None]*(b[1:] - b[:-1])[:, None]
                        if q >= 3:
                            # equal steps are what the function asks for
                            b = np.linspace(b[0], b[2], 3)
                            w = 0.5*(a[1:]**2 - a[:-1]**2)[None]*np.full((2, 1), b[1] - b[0])
                        else:
                            b = np.linspace(0.2, 2., 3)
                            w = 0.5*(a[1:]**2 - a[:-1]**2)[None]*np.full((2, 1), 0.9)
                        g = rec.call(M.polar.get_polar_area2d, a, b)
                        rec.check(bool(np.all(np.abs(g - w) < 6e-15)), dict(key, edge=q), "areas", got=g, want=w)
                    for q in range(4):
                        p = [0.3, 1.2, 0.4, 1.9]
                        p[q] += s*d
                        g = rec.call(C.usphere_area, *p)
                        w = (p[1] - p[0])*(np.cos(p[2]) - np.cos(p[3]))
                        rec.check(abs(g - w) < 6e-15, dict(key, bound=q), "usphere_area", got=g, want=w)
                    e = rec.call(M.grids.get_xedges, 1. + s*d, 7, xmin=0.3)
                    rec.check(bool(np.all(np.abs(e - 0.3 - (1. + s*d)*np.arange(8)/7) < 5e-15)), key, "edges")
                    e = rec.call(M.grids.get_xedges, 1., 7, xmin=0.3 + s*d)
                    rec.check(bool(np.all(np.abs(e - 0.3 - s*d - np.arange(8)/7) < 5e-15)), key, "edges")
                    # just inside and just outside the disc
                    for rr in (1., 2.3):
                        r = rr*(1. - s*d)
                        g = rec.call(C.ortho2cart, np.array([r, 0.]), np.array([0., r]), r=rr)
                        w = rr*np.sqrt(2*d - d*d) if s > 0 else np.nan
                        ok = np.all(np.isnan(g)) if s < 0 else np.all(np.abs(np.asarray(g)**2/w**2 - 1.) < 1e-14/d)
                        rec.check(bool(ok), dict(key, radius=rr), "ortho2cart", got=g, want=w)
        # the view
        F = M.densegrid.PointOfView
        P3 = np.stack([x, y, z], axis=-1)
        first = dict(camera=[0.3, -0.2, 0.7], point=[1.3, 0.8, 0.2], display=0.5, spin=0.4)
        bases = [first, dict(first, spin=0.), dict(first, spin=PI/2), dict(first, spin=PI),
                 dict(camera=[0., 0., 0.], point=[1., 0., 0.], display=1., spin=0.),
                 dict(camera=[0.3, -0.2, 0.7], point=[0.3, 0.8, 0.7], display=0.5, spin=0.),
                 dict(camera=[0.3, -0.2, 0.7], point=[-2., -0.2, 0.7], display=2., spin=PI/2)]
        todo = [(base, nm, ax) for base in bases
                for nm, ax in [("camera", 0), ("camera", 1), ("camera", 2), ("point", 0), ("point", 1), ("point", 2),
                               ("display", None), ("spin", None)]]
        for base, nm, ax in todo:
            for d in SMALL:
                for s in (1, -1):
                    p = {k: list(v) if isinstance(v, list) else v for k, v in base.items()}
                    if ax is None:
                        p[nm] += s*d
                    else:
                        p[nm][ax] += s*d
                    if p["spin"] < 0.:
                        continue
                    key = {"PointOfView": nm, "axis": ax, "change": s*d, "from": base}
                    with rec.case(key):
                        old = F()
                        old.setup(base["camera"], base["point"], base["display"], spin=base["spin"])
                        old.transform(x, y, z)
                        old.setup(p["camera"], p["point"], p["display"], spin=p["spin"])
                        new = F()
                        new.setup(p["camera"], p["point"], p["display"], spin=p["spin"])
                        w = view(p, P3)
                        good = np.isfinite(w).all(axis=-1) & (np.abs(w).max(axis=-1) < 20.)
                        front = good & ((P3 - p["camera"]) @ (np.array(p["point"]) - p["camera"]) > 0.)
                        for which, o in (("new", new), ("used", old)):
                            g = np.stack(rec.call(o.transform, x, y, z), axis=-1)
                            e = np.abs(g - w)[good]
                            # turns below 1e-12 are taken for none
                            rec.check(bool(np.all(e < (2e-12 if d > 1e-11 else 2e-9))), dict(key, object=which), "transform",
                                      worst=np.max(e), number=int(good.sum()))
                            g = np.stack(rec.call(o.reverse, *w[front].T.copy()), axis=-1)
                            e = np.abs(g - P3[front])
                            rec.check(bool(np.all(e < (2e-12 if d > 1e-11 else 2e-9))), dict(key, object=which), "reverse",
                                      worst=np.max(e))
                        rec.outcome(g)


def view(p, q):
    """Perspective positions and distances of points q."""
    cam = np.array(p["camera"])
    ph, th = rot.ang(np.array(p["point"]) - cam)
    w = (q - cam) @ (rot.Rx(p["spin"]) @ rot.Ry(PI/2 - th) @ rot.Rz(-ph)).T
    s = p["display"]/w[:, 0]
    return np.stack([w[:, 1]*s, w[:, 2]*s, np.linalg.norm(w, axis=-1)], axis=-1)
