"""C41: impossible arguments are refused, possible ones answered."""
import itertools

import healpy as hp
import numpy as np

from mc import core

MAPS = True
PI, TWO = np.pi, 2*np.pi
E = 1e-12
UP = TWO*(1 - E)
BOUNDS = {
    "quick": "a decision table of 75 functions, methods and object states: every class of every argument (well outside, "
             "just outside by 1e-12, on each border, just inside, well inside, wrong lengths and shapes); the full product "
             "of the classes up to 12000 calls, else every pair around every background of possible values; sources and "
             "targets of 9 remappers, new and set up before; after each refusal the remapper answers as before",
    "thorough": "the full product of all classes up to 3000000 calls, else every triple",
}
ASSUMPTIONS = ["any exception counts as a refusal; a refusal may come from the set-up or, for Monte Carlo remappers, "
               "at the latest from making the weights",
               "values within 1e-12 of a border are not told apart from it; NaN is not covered"]


class Spec:
    """One function: classes of every argument and the joint condition on possible ones."""

    def __init__(self, name, call, params, joint=None, make=None, probe=None):
        self.name, self.call, self.joint = name, call, joint
        self.params = params            # name -> (possible values, impossible values)
        self.make, self.probe = make, probe


ANG = ([0., E, 1., PI, UP, TWO], [-E, -1., -7., TWO*(1 + E), 7., 100.])
COL = ([0., E, 1., PI/2, PI*(1 - E), PI], [-E, -1., -4., PI*(1 + E), 3.5, 6., 100.])
COUNT = ([1, 2], [0, -1, -3])
RLO = ([0., E, 0.5], [-E, -0.5, -9.])
RHI = ([0.5, 0.5 + 1e-9, 2.], [])
PLO = ([0., E, 1., UP], [-E, -1., TWO, TWO*(1 + E), 7.])
PHI = ([1e-9, 1., UP, TWO], [0., -E, -1., TWO*(1 + E), 7.])
C2 = ([(0., 0.), [1., 0.5]], [[], [1.], [1., 0.5, 0.2], (1., 0.5, 0.2, 0.1)])
C3 = ([(0., 0., 0.), [0.1, 0.5, -0.2]], [[], [1.], [1., 0.5], [1., 0.5, 0.2, 0.1]])
CAP = ([[0., 0.], (1., 0.5), [TWO, PI], [0., PI], [UP, 1.]],
       [[], [1.], [1., 0.5, 0.2], [-E, 1.], [-2., 1.], [TWO*(1 + E), 1.], [7., 1.], [1., -E], [1., -1.],
        [1., PI*(1 + E)], [1., 3.3]])
NSIDE = ([1, 2, 16], [0, -1, -4, 2.5, 0.5])


def shapes(n, two=False):
    """Arrays of the right shape and of others."""
    if np.ndim(n) == 0:
        return ([np.ones(n), np.arange(n)*1.],
                [np.ones(n - 1), np.ones(n + 1), np.ones(4*n), np.ones(0), np.ones((n, 1)), np.ones((1, n)), 1.])
    a, b = n
    return ([np.ones(n), np.arange(a*b).reshape(n)*1.],
            [np.ones((b, a)), np.ones((a, b + 1)), np.ones((a + 1, b)), np.ones((a - 1, b)), np.ones((a, b - 1)),
             np.ones(a*b), np.ones((a, b, 1)), np.ones((1, a, b)), np.ones((a, 1)), np.ones((1, b)), np.ones(a),
             np.ones(b), 1.])


def specs(M):
    C, S, P, O, R = M.coords, M.randoms, M.pixel, M.one_d, M.randoms
    out = []

    def add(*a, **k):
        out.append(Spec(*a, **k))
    ph, th = np.array([0.3, 2., 4.]), np.array([0.4, 1.5, 3.])
    ends = {"p0": ANG, "t0": COL, "p1": ANG, "t1": COL}
    add("usphere_rotate", lambda p0, t0, p1, t1: C.usphere_rotate(ph, th, p1, t1, phi_start=p0, theta_start=t0), ends,
        lambda p0, t0, p1, t1: (p0, t0) != (p1, t1))
    add("usphere_shift", lambda p0, t0, p1, t1: C.usphere_shift(ph, th, p0, t0, p1, t1), ends)
    add("usphere_shift one", lambda p0, t0, p1, t1: C.usphere_shift(0.3, 0.4, p0, t0, p1, t1), ends)
    add("usphere_spin", lambda p0, t0, a: C.usphere_spin(ph, th, p0, t0, a), {"p0": ANG, "t0": COL, "a": ANG})
    full = ([-TWO, -TWO*(1 - E), -1., -E, 0., E, 1., UP, TWO], [-TWO*(1 + E), -7., -100., TWO*(1 + E), 7., 100.])
    add("usphere_phi_shift", lambda d: C.usphere_phi_shift(ph, d), {"d": full})
    add("usphere_phi_shift one", lambda d: C.usphere_phi_shift(0.3, d), {"d": full})
    tlo = ([0., E, 1., PI*(1 - E)], [-E, -1., PI, PI*(1 + E), 4.])
    thi = ([1e-9, 1., PI*(1 - E), PI], [0., -E, -1., PI*(1 + E), 4., 7.])
    add("usphere_area", lambda a, b, c, d: C.usphere_area(a, b, c, d), {"a": PLO, "b": PHI, "c": tlo, "d": thi},
        lambda a, b, c, d: a != b and c != d)
    turn = ([E, 1e-6, 1., PI, UP], [0., -E, -1., TWO, TWO*(1 + E), 7., -7.])
    add("rotate_polar", lambda r: C.rotate_polar(ph, r), {"r": turn})
    add("rotate_polar_grid", lambda r: C.rotate_polar_grid(np.linspace(0., TWO, 5), np.ones((4, 3)), r), {"r": turn})
    four = ([4, 8, 40], [0, -4, 1, 2, 3, 5, 6, 7, 10, 41])
    ext = ([-1., 0., 2.], [])
    add("get_square", lambda a, b, steps: P.get_square(a, a + 1., b, b + 2., steps=steps), {"a": ext, "b": ext, "steps": four})
    twelve = ([12, 24, 48], [0, -12, 1, 3, 4, 6, 8, 11, 13, 16, 18, 20, 36.5])
    near = ([False, True], [])
    add("get_box", lambda a, near, steps: P.get_box(a, a + 1., -1., 2., 0., 1., steps=steps, return_nearest=near),
        {"a": ext, "near": near, "steps": twelve})
    samp = np.arange(5)*1.
    size = ([1, 2, 4, 0], [5, 6, 100])
    add("random_draw", lambda size: S.random_draw(samp, size), {"size": size})
    probs = ([np.array([0.1, 0.2, 0.3, 1., 2.]), np.full(5, 1e-300)],
             [np.array([0.1, 0., 0.3, 1., 2.]), np.array([0., .2, .3, 1., 2.]), np.array([.1, .2, .3, 1., 0.]),
              np.array([.1, .2, -1e-300, 1., 1.]), np.array([.1, .2, .1, -1., 1.])])
    add("random_prob_draw", lambda size, prob: S.random_prob_draw(samp, prob, size=size), {"size": size, "prob": probs})
    x = np.linspace(0., 1., 6)
    c0 = ([0.], [E, -E, 0.1, -0.1, 1e-3])
    c1 = ([1.], [1 - E, 1 + E, 0.9, 1.1, 2.])
    add("randoms_cdf", lambda a, b, kind: R.randoms_cdf(x, np.array([a, .2, .4, .6, .8, b]), 3, kind=kind),
        {"a": c0, "b": c1, "kind": (["cubic", "linear"], [])})
    edges = np.array([0., 1., 2.5, 3., 4.])
    up = ([edges, edges - 3., edges*1e-6, edges[:-1], np.append(edges, 5.)],
          [edges[::-1], np.array([0., 1., 0.5, 3., 4.]), np.array([1., 0., 2., 3., 4.]), np.array([0., 1., 2., 4., 3.]),
           np.array([0., 1., 2., 3., 3. - 1e-9])])
    new = ([np.array([0.5, 1.5, 3.5]), np.array([-3., 4.])],
           [np.array([3.5, 1.5, 0.5]), np.array([0.5, 1.5, 1.5 - 1e-9, 3.]), np.array([1.5, 0.5, 3.]),
            np.array([0.5, 3., 1.5])])
    some = [np.ones(n) for n in (4, 3, 5, 0, 1, 8)]

    def fit(e, n, d, w, s):
        return all(v is None or len(v) == len(e) - 1 for v in (d, w, s))
    add("rebin_1d", lambda e, n, d, w, s: O.rebin_1d(e, d, n, w=w, sigma=s),
        {"e": up, "n": new, "d": (some, []), "w": ([None] + some, []), "s": ([None] + some, [])}, fit)
    out += remappers(M)
    return out


# ---------------------------------------------------------------- remappers
def remappers(M):
    D, MC = M.densegrid, M.montecarlo
    out = []

    def add(cls, method, params, joint=None, fresh=None, used=None, call=None, weights=None):
        """fresh, used: make an object without and with targets; used ones are probed after a refusal."""
        name = "%s.%s.%s" % (cls.__module__.split(".")[1], cls.__name__, method)
        for kind, make in (("new", fresh), ("used", used)):
            if make is None:
                continue

            def run_(o, weights=weights, **k):
                r = (call or (lambda o, **k: getattr(o, method)(**k)))(o, **k)
                if weights:
                    o.get_weights(mc_size=weights, verbose=False)
                return r
            out.append(Spec(name + " " + kind, run_, params, joint, make, probe if kind == "used" else None))

    # boxes
    b2 = {"xmin": ([-1.], []), "xmax": ([1.], []), "numx": COUNT, "ymin": ([-1.], []), "ymax": ([1.], []), "numy": COUNT}
    b3 = dict(b2, zmin=([-1.], []), zmax=([1.], []), numz=COUNT)
    pol = {"rmin": RLO, "rmax": RHI, "numr": COUNT, "nump": COUNT, "pmin": PLO, "pmax": PHI, "center": C2}

    def polj(rmin, rmax, pmin=0., pmax=TWO, **k):
        return rmin < rmax and pmin < pmax
    for cls, setp in ((D.Box2Ring, "setup_polar"), (MC.Box2Ring, "setup_polar_lin")):
        def fresh(cls=cls):
            o = cls()
            o.setup_box(-1., 1., 2, -1.5, 1.5, 3)
            return o

        def used(cls=cls, setp=setp, fresh=fresh):
            o = fresh()
            getattr(o, setp)(0.1, 0.9, 2, 4)
            if cls is MC.Box2Ring:
                np.random.seed(3)
                o.get_weights(mc_size=40, verbose=False)
            return o
        add(cls, "setup_box", b2, fresh=cls, used=used)
        add(cls, setp, pol, polj, fresh=fresh, used=used)
        fp = shapes((4, 2))
        turn = ([1e-6, 1., UP], [0., -E, -1., TWO, 7.])
        add(cls, "rotate_polar", {"f_polar": fp, "phi_shift": turn}, used=used)
        add(cls, "polar2radial", {"f_polar": fp, "sigma": ([None] + fp[0], fp[1])}, used=used)
        if cls is MC.Box2Ring:
            sf = shapes((3, 2))
            add(cls, "remap", {"f": sf, "w": ([None] + sf[0], sf[1]), "verbose": ([False], [])}, used=used)
            add(cls, "get_weights", {"mc_size": ([2, 30], [1, 0, -1, -5]), "verbose": ([False], [])}, used=used)
            log = dict(pol, rmin=([1e-9, 0.5], [0., -E, -0.5]), addzero=([True, False], []))
            add(cls, "setup_polar_log", log, polj, fresh=fresh, used=used)

        def nobox(cls=cls, setp=setp):
            o = cls()
            getattr(o, setp)(0.1, 0.9, 2, 4)
            return o
        never = {"verbose": ([], [False])}
        add(cls, "get_mask_in_bound", never, fresh=nobox)
        add(cls, "get_mask_in_bound", never, fresh=fresh)
        add(cls, "get_mask_in_bound", never, fresh=cls)
    # shells
    shell = {"rmin": RLO, "rmax": RHI, "numr": COUNT, "nside": NSIDE, "center": C3}
    for cls, setp in ((D.Cube2Shell, "setup_polar"), (MC.Cube2Shell, "setup_polar_lin")):
        def fresh(cls=cls):
            o = cls()
            o.setup_cube(-1., 1., 2, -1.5, 1.5, 3, -1., 1., 1)
            return o

        def used(cls=cls, setp=setp, fresh=fresh):
            o = fresh()
            getattr(o, setp)(0.1, 0.9, 2, 1)
            if cls is MC.Cube2Shell:
                np.random.seed(3)
                o.get_weights(mc_size=20, verbose=False)
            return o
        add(cls, "setup_cube", b3, fresh=cls, used=used)
        if cls is D.Cube2Shell:
            sh = dict(shell, rebin_shell=([1, 2], [0, -1, -2, 0.3]), rebin_r=([1, 2], [0, -1, -2]))
            add(cls, setp, sh, polj, fresh=fresh, used=used)
        else:
            sh = dict(shell, nside=([1, 2], []))
            add(cls, setp, sh, polj, fresh=fresh, used=used)
            log = dict(sh, rmin=([1e-9, 0.5], [0., -E, -0.5]), addzero=([True, False], []))
            add(cls, "setup_polar_log", log, polj, fresh=fresh, used=used)
    # HEALPix sources
    cap = {"alpha_min": ([0., E, 0.5], [-E, -0.5]), "alpha_max": ([0.5, 0.5 + 1e-9, 2.], []), "num_alpha": COUNT,
           "num_beta": COUNT, "beta_min": PLO, "beta_max": PHI, "center": CAP, "beta_shift": ANG}

    def capj(alpha_min, alpha_max, beta_min=0., beta_max=TWO, **k):
        return alpha_min < alpha_max and beta_min < beta_max
    xl = ([0., 1e-9, 1., PI, UP, TWO], [-E, -1., TWO*(1 + E), 7.])
    yl = ([None, 0., 1., PI*(1 - E), PI], [-E, -1., PI*(1 + E), 4., TWO])
    box = {"x_length": xl, "x_grid": COUNT, "center": CAP, "alpha": ANG, "y_length": yl,
           "y_grid": ([None, 1, 2], [0, -1, -3])}
    for mod, name, setp, par, joint in ((D, "Heal2Ring", "setup_polar_cap", cap, capj),
                                        (MC, "Heal2Ring", "setup_polar_cap", cap, capj),
                                        (D, "Heal2Polar", "setup_box", box, None),
                                        (MC, "Heal2Polar", "setup_box", box, None),
                                        (D, "Heal2Ortho", "setup_box", None, None)):
        cls = getattr(mod, name)
        if par is None:
            par = {"x_length": ([0.5, 2.5], []), "x_grid": COUNT, "center": CAP, "y_length": ([None, 1.], [])}
        args = (0.1, 0.9, 2, 4) if name == "Heal2Ring" else (1., 2)
        kw = {} if name == "Heal2Ring" else {"y_grid": 4}

        def fresh(cls=cls):
            o = cls()
            o.setup_map(2)
            return o

        def used(cls=cls, setp=setp, fresh=fresh, args=args, kw=kw, mod=mod):
            o = fresh()
            getattr(o, setp)(*args, **kw)
            if mod is MC:
                np.random.seed(3)
                o.get_weights(mc_size=20, verbose=False)
            return o
        add(cls, "setup_map", {"nside": NSIDE}, fresh=cls, used=used)
        if mod is D:
            add(cls, setp, par, joint, fresh=fresh, used=used)
        else:
            # what the random points need is refused when they are made
            add(cls, setp, par, joint, fresh=fresh, weights=2)
            late = dict(par, center=(par["center"][0], [c for c in par["center"][1] if len(c) != 2]))
            late["beta_shift" if name == "Heal2Ring" else "alpha"] = (ANG[0], [])
            add(cls, setp, late, joint, used=used)
            hf = shapes(48)
            # a column is as long as a map
            hf = (hf[0], [v for v in hf[1] if np.ndim(v) == 0 or len(v) != 48])
            add(cls, "remap", {"f": hf, "w": ([None] + hf[0], hf[1]), "verbose": ([False], [])}, used=used)
            add(cls, "get_weights", {"mc_size": ([2, 30], [1, 0, -1, -5]), "verbose": ([False], [])}, used=used)
        if name == "Heal2Ring":
            fp = shapes((4, 2))
            turn = ([1e-6, 1., UP], [0., -E, -1., TWO, 7.])
            add(cls, "rotate_polar", {"f_polar": fp, "beta_shift": turn}, used=used)
            add(cls, "polar2radial", {"f_polar": fp, "sigma": ([None] + fp[0], fp[1])}, used=used)
    return out


def probe(o):
    """What a remapper that is set up answers."""
    out = []

    def ask(fn):
        try:
            r = fn()
        except Exception:
            out.append("refused")
            return
        out.append([np.array(v, dtype=float, copy=True) for v in (r if isinstance(r, tuple) else (r,))])
    if hasattr(o, "z3d"):
        shp = np.shape(o.x3d)
    elif hasattr(o, "nside"):
        shp = (12*o.nside**2,)
    else:
        shp = np.shape(o.x2d)
    n = int(np.prod(shp))
    f = (np.arange(n)*1.37 % 5 + 0.1*np.arange(n)).reshape(shp)
    ask(lambda: o.remap(f, verbose=False))
    if not (hasattr(o, "z3d") and hasattr(o, "rebin_shell")):
        ask(lambda: o.remap(f, w=1. + f % 2, verbose=False))
    if hasattr(o, "polar2radial") and hasattr(o, "remap"):
        g = o.p2d if hasattr(o, "p2d") else o.beta2d
        m = np.arange(np.size(g)).reshape(np.shape(g))*1.
        ask(lambda: o.polar2radial(m, sigma=1. + m))
        ask(lambda: o.rotate_polar(m, 0.7))
    for a in sorted(vars(o)):
        v = getattr(o, a)
        if isinstance(v, np.ndarray) and v.dtype != object and a not in ("area2d", "mask_in_bound"):
            out.append([np.array(v, copy=True)])
        elif isinstance(v, (int, float, list, tuple)) and a != "pixarea":
            out.append([np.array(v, dtype=float)])
    return out


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x is not y and x != y:
                return False
        elif len(x) != len(y) or not all(u.shape == v.shape and np.array_equal(u, v, equal_nan=True)
                                         for u, v in zip(x, y)):
            return False
    return True


LIMIT = {"quick": 12000, "thorough": 3000000}


def choices(sp, tier):
    """Assignments: dict name -> (value index, possible?)."""
    names = list(sp.params)
    cl = {n: [(i, True) for i in range(len(sp.params[n][0]))] +
          [(i, False) for i in range(len(sp.params[n][1]))] for n in names}
    total = 1
    for n in names:
        total *= len(cl[n])
    if total <= LIMIT[tier]:
        for c in itertools.product(*[cl[n] for n in names]):
            yield dict(zip(names, c))
        return
    # two backgrounds, all pairs (quick), all triples (thorough)
    k = 2 if tier == "quick" else 3
    seen = set()
    nb = max(len(sp.params[n][0]) for n in names)
    for b in range(nb):
        back = {n: (b % len(sp.params[n][0]), True) for n in names}
        for comb in itertools.combinations(names, k):
            for c in itertools.product(*[cl[n] for n in comb]):
                a = dict(back)
                a.update(zip(comb, c))
                key = tuple(a[n] for n in names)
                if key not in seen:
                    seen.add(key)
                    yield a


def value(sp, a):
    return {n: sp.params[n][0 if ok else 1][i] for n, (i, ok) in a.items()}


def copy(v):
    return v.copy() if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v)


NSPEC = 80


def shards(tier):
    return [{"k": k, "t": tier} for k in range(NSPEC)]


def run(sh, rec, M):
    sps = specs(M)
    assert len(sps) <= NSPEC, len(sps)
    if sh["k"] >= len(sps):
        return
    sp = sps[sh["k"]]
    proto = sp.make() if sp.make else None
    ref = sp.probe(sp.make()) if sp.probe else None
    for a in choices(sp, sh["t"]):
        v = value(sp, a)
        bad = [n for n in a if not a[n][1]]
        ok = not bad
        if ok and sp.joint is not None and not sp.joint(**v):
            ok, bad = False, ["jointly"]
        key = {"fn": sp.name, "args": v, "impossible": bad}
        with rec.case(key):
            np.random.seed(11)
            o = sp.make() if sp.make and ok and sp.probe else proto
            args = {n: copy(x) for n, x in v.items()}
            try:
                rec.call(sp.call, *([o] if sp.make else []), **args)
                refused = None
            except Exception as e:
                refused = "%s: %s" % (type(e).__name__, e)
            rec.outcome([float(ok), float(refused is None), sh["k"]])
            rec.count("possible" if ok else "impossible")
            if ok:
                rec.check(refused is None, key, sp.name + ": a possible call is refused", error=refused)
            else:
                rec.check(refused is not None, key, sp.name + ": an impossible call is answered")
                if sp.probe and refused is not None and (len(bad) == 1 or sh["t"] == "thorough"):
                    fine = same(sp.probe(o), ref)
                    rec.check(fine, key, sp.name + ": a refused call has changed the remapper",
                              changed=None if fine else [n for n in vars(o) if differs(vars(o)[n], vars(sp.make()).get(n))])
                    if not fine:
                        proto = sp.make()
            if sp.make and (ok or refused is None) and not (ok and sp.probe):
                proto = sp.make()


def differs(a, b):
    try:
        return not np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
    except Exception:
        try:
            return not np.array_equal(np.asarray(a), np.asarray(b))
        except Exception:
            return False
