"""C31: remapper objects after every history of operations."""
import itertools

import numpy as np

from mc import core
from mc.checks import c36

SRC = False
MAPS = True
PI, TWO = np.pi, 2*np.pi
BOUNDS = {
    "quick": "9 remapper classes and the point of view; every sequence of up to 5 operations "
             "(Cube2Shell: 4) from: 2 source set-ups, 3 target set-ups, weights, remap, radial profile, "
             "clean; after each the object's answers are compared with those of a new object "
             "with the same last set-up; every interleaving of two set-ups and uses on two objects; "
             "earlier results and reused input arrays after later calls; every ordered pair of 10-22 set-ups "
             "per class that differ in one argument or exchange two, on new objects and on one object, "
             "against answers in a fresh process",
    "thorough": "sequences of up to 6 operations (Cube2Shell: 5)",
}
ASSUMPTIONS = ["documented order: source, then target, then Monte Carlo weights, then remap",
               "Monte Carlo weights are drawn after seeding, so equal set-ups give equal weights"]

# class -> (module, name, sources, targets)
SPEC = {
    "dB2R": ("densegrid", "Box2Ring", "setup_box",
             [(-1., 1., 3, -1., 1., 3), (-2., 1., 2, -0.5, 1.7, 2)], "setup_polar",
             [((0., 0.9, 2, 3), {}), ((0.3, 1.6, 1, 2), {"center": [0.3, -0.2], "phi_shift": 0.4, "rebin_r": 1}),
              ((0., 0.9, 2, 3), {"pmax": PI, "rebin_p": 3})]),
    "mB2R": ("montecarlo", "Box2Ring", "setup_box",
             [(-1., 1., 3, -1., 1., 3), (-2., 1., 2, -0.5, 1.7, 2)], "setup_polar_lin",
             [((0., 0.9, 2, 3), {}), ((0.3, 1.6, 1, 2), {"center": [0.3, -0.2], "phi_shift": 0.4}),
              ("log", (0.2, 0.9, 2, 3), {"pmax": PI})]),
    "dC2S": ("densegrid", "Cube2Shell", "setup_cube",
             [(-1., 1., 2, -1., 1., 2, -1., 1., 2), (-1., 2., 3, -0.5, 1.5, 2, -2., 1., 1)],
             "setup_polar", [((0., 1., 1, 1), {}), ((0.3, 2., 2, 1), {"center": [0.1, 0.2, 0.3], "periodicx": [-1, 1]}),
                             ((0.3, 2., 1, 2), {"rebin_r": 1, "rebin_shell": 1})]),
    "mC2S": ("montecarlo", "Cube2Shell", "setup_cube",
             [(-1., 1., 2, -1., 1., 2, -1., 1., 2), (-1., 2., 3, -0.5, 1.5, 2, -2., 1., 1)],
             "setup_polar_lin", [((0., 1., 1, 1), {}), ((0.3, 2., 2, 1), {"center": [0.1, 0.2, 0.3]}),
                                 ("log", (0.3, 2., 1, 1), {})]),
    "dH2R": ("densegrid", "Heal2Ring", "setup_map", [(1,), (2,)], "setup_polar_cap",
             [((0., 0.9, 2, 3), {}), ((0.3, 1.6, 1, 2), {"center": [1., 2.], "beta_shift": 0.4, "rebin_alpha": 1}),
              ((0., 0.9, 2, 3), {"beta_max": PI, "rebin_beta": 3})]),
    "mH2R": ("montecarlo", "Heal2Ring", "setup_map", [(1,), (2,)], "setup_polar_cap",
             [((0., 0.9, 2, 3), {}), ((0.3, 1.6, 1, 2), {"center": [1., 2.], "beta_shift": 0.4}),
              ((0., 0.9, 2, 3), {"beta_max": PI})]),
    "dH2P": ("densegrid", "Heal2Polar", "setup_map", [(1,), (2,)], "setup_box",
             [((1., 2), {}), ((0.7, 2), {"center": [1., 2.], "alpha": 0.4, "y_grid": 1, "rebin_x": 1}),
              ((1., 2), {"y_length": 2., "rebin_y": 3})]),
    "mH2P": ("montecarlo", "Heal2Polar", "setup_map", [(1,), (2,)], "setup_box",
             [((1., 2), {}), ((0.7, 2), {"center": [1., 2.], "alpha": 0.4, "y_grid": 1}),
              ((1., 2), {"y_length": 2.})]),
    "dH2O": ("densegrid", "Heal2Ortho", "setup_map", [(1,), (2,)], "setup_box",
             [((1.8, 2), {}), ((1.1, 2), {"center": [1., 2.], "y_grid": 1, "rebin_x": 1}),
              ((3., 3), {"radius": 1.3, "rebin_y": 3})]),
}


def shards(tier):
    # first, in processes that have run nothing else: c36 forks from them
    out = [{"tours": c, "part": i, "t": tier} for c in c36.CLS for i in range(3)]
    for c in SPEC:
        d = (4 if c[1:] == "C2S" else 5) + (1 if tier == "thorough" else 0)
        ops = alphabet(c)
        for first in itertools.product(ops, repeat=2):
            out.append({"cls": c, "prefix": list(first), "depth": d})
        out.append({"cls": c, "two": True})
        out.append({"cls": c, "reuse": True})
    out.append({"cls": "pov"})
    return out


def alphabet(c):
    ops = ["S0", "S1", "T0", "T1", "T2", "R", "C"]
    if c[0] == "m":
        ops.append("W")
    if c[1:] in ("B2R", "H2R"):
        ops.append("P")
    return ops


def new(M, c):
    return getattr(getattr(M, SPEC[c][0]), SPEC[c][1])()


def source_shape(c, s):
    a = SPEC[c][3][s]
    if c[1:] == "B2R":
        return (a[5], a[2])
    if c[1:] == "C2S":
        return (a[5], a[2], a[8])
    return (12*a[0]**2,)


def apply(rec, o, c, op, src):
    """Runs one operation; returns its result."""
    mod, name, sset, ss, tset, ts = SPEC[c]
    if op[0] == "S":
        return rec.call(getattr(o, sset), *ss[int(op[1])])
    if op[0] == "T":
        t = ts[int(op[1])]
        if t[0] == "log":
            return rec.call(o.setup_polar_log, *t[1], **t[2])
        return rec.call(getattr(o, tset), *t[0], **t[1])
    if op == "C":
        return rec.call(o.clean)
    if op == "W":
        np.random.seed(7)
        return rec.call(o.get_weights, mc_size=6, verbose=False)
    if op == "R":
        f = field(c, src)
        return [rec.call(o.remap, f, verbose=False)]
    if op == "P":
        grid = getattr(o, "r2d", None) if c[1:] == "B2R" else getattr(o, "alpha2d", None)
        n = np.size(grid)
        fp = np.cos(np.arange(n)*1.3).reshape(np.shape(grid))
        r = rec.call(o.polar2radial, fp, sigma=np.abs(fp) + 0.1)
        return [r[0], r[1], rec.call(o.polar2radial, fp, w=fp**2)]
    raise ValueError(op)


def field(c, src):
    shp = source_shape(c, src)
    n = int(np.prod(shp))
    return (3*np.cos(np.arange(n)*1.7) + np.arange(n)).reshape(shp)


def answers(rec, o, c, src):
    """Everything the object tells: list of arrays, or 'refused' per question."""
    out = []
    shp = source_shape(c, src)
    n = int(np.prod(shp))
    f = field(c, src)
    w = (0.5 + np.arange(n) % 3).reshape(shp)

    def ask(fn):
        try:
            r = fn()
        except Exception:
            out.append("refused")
            return
        for x in (r if isinstance(r, (tuple, list)) else [r]):
            out.append(np.array(x, dtype=float, copy=True))
    ask(lambda: rec.call(o.remap, f, verbose=False))
    if c != "dC2S":
        ask(lambda: rec.call(o.remap, f, w=w, verbose=False))
    if c[1:] in ("B2R", "H2R"):
        ask(lambda: apply(rec, o, c, "P", src))
        ask(lambda: rec.call(o.rotate_polar, field_p(o, c), 0.7))
    if c[1:] == "B2R":
        def mask():
            o.get_mask_in_bound(verbose=False)
            return o.mask_in_bound
        ask(mask)
    if c == "dH2O":
        ask(lambda: rec.call(o.transform, np.array([0.3, 2., 4.]), np.array([0.4, 1.5, 3.])))
    return out


def field_p(o, c):
    grid = o.r2d if c[1:] == "B2R" else o.alpha2d
    return np.arange(np.size(grid)).reshape(np.shape(grid))*1.


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str)):
                return False
        elif x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
            if x.shape != y.shape or not core.close(x, y, 1e-12):
                return False
    return True


class Model:
    """What the object must remember of its history."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.src = self.tgt = None
        self.order = ()
        self.weights = "none"

    def step(self, op):
        if op == "C":
            self.reset()
        elif op[0] in "ST":
            if op[0] == "S":
                self.src = int(op[1])
            else:
                self.tgt = int(op[1])
            self.order = tuple(x for x in self.order if x != op[0]) + (op[0],)
            if self.weights == "ok":
                self.weights = "stale"
        elif op == "W" and self.src is not None and self.tgt is not None:
            self.weights = "ok"

    def key(self):
        return (self.src, self.tgt, self.order, self.weights)


def run(sh, rec, M):
    if "tours" in sh:
        return c36.run({"kind": "class", "cls": sh["tours"], "part": sh["part"], "of": 3, "t": sh["t"]}, rec, M)
    c = sh["cls"]
    if c == "pov":
        return pov(rec, M)
    if sh.get("two"):
        return two(sh, rec, M)
    if sh.get("reuse"):
        return reuse(sh, rec, M)
    ops = alphabet(c)
    refs = {}

    def reference(m):
        k = m.key()
        if k not in refs:
            o = new(M, c)
            for x in m.order:
                apply(rec, o, c, "%s%d" % (x, m.src if x == "S" else m.tgt), m.src)
            if m.weights == "ok":
                apply(rec, o, c, "W", m.src)
            refs[k] = answers(rec, o, c, 0 if m.src is None else m.src)
        return refs[k]
    judged = 0
    for tail in itertools.product(ops, repeat=sh["depth"] - 2):
        hist = list(sh["prefix"]) + list(tail)
        if hist[0][0] not in "STC" or hist[-1] in ("R", "P"):
            continue        # covered: answers are asked after every history anyway
        m = Model()
        for op in hist:
            m.step(op)
        if m.weights == "stale" or m.order not in (("S", "T"), ()) and m.order != ("T", "S"):
            continue
        if m.order == ("T", "S") and c != "dB2R":
            continue
        o = new(M, c)
        key = {"cls": c, "history": hist}
        with rec.case(key):
            mm = Model()
            for op in hist:
                mm.step(op)
                try:
                    apply(rec, o, c, op, 0 if mm.src is None else mm.src)
                except Exception:
                    if op[0] in "ST" and not (op[0] == "T" and mm.src is None):
                        raise
                    if op == "W" and mm.src is not None and mm.tgt is not None:
                        raise
                    if op[0] == "T":
                        mm.tgt, mm.order = None, tuple(x for x in mm.order if x != "T")
            if mm.key() != m.key():
                continue
            want = reference(m)
            got = answers(rec, o, c, 0 if m.src is None else m.src)
            judged += 1
            for x in got:
                if not isinstance(x, str):
                    rec.outcome(x)
            bad = [i for i in range(min(len(got), len(want))) if not same(got[i:i+1], want[i:i+1])]
            rec.check(same(got, want), key, "answers differ from those of a new object",
                      questions=bad, got=[got[i] for i in bad[:1]], want=[want[i] for i in bad[:1]])
    rec.count("histories judged", judged)


def two(sh, rec, M):
    """Every interleaving of the full use of two objects, for every pair of set-ups."""
    c = sh["cls"]
    use = ["S", "T"] + (["W"] if c[0] == "m" else []) + ["Q"]
    n = len(use)
    masks = [p for p in itertools.combinations(range(2*n), n)]
    single = {}
    for s, t in itertools.product(range(2), range(3)):
        o = new(M, c)
        for op in ["S%d" % s, "T%d" % t] + (["W"] if c[0] == "m" else []):
            apply(rec, o, c, op, s)
        single[s, t] = answers(rec, o, c, s)
    for a, b in itertools.product(sorted(single), repeat=2):
        for mask in masks:
            key = {"cls": c, "two": [a, b], "interleaving": mask}
            with rec.case(key):
                obj = [new(M, c), new(M, c)]
                pos, cfg, res = [0, 0], [a, b], [None, None]
                for k in range(2*n):
                    i = 0 if k in mask else 1
                    op = use[pos[i]]
                    pos[i] += 1
                    s, t = cfg[i]
                    if op == "Q":
                        res[i] = answers(rec, obj[i], c, s)
                    else:
                        apply(rec, obj[i], c, op + {"S": str(s), "T": str(t), "W": ""}[op], s)
                last = [answers(rec, obj[i], c, cfg[i][0]) for i in (0, 1)]
                for i in (0, 1):
                    rec.check(same(res[i], single[cfg[i]]) and same(last[i], single[cfg[i]]), key,
                              "an object's answers depend on another object")


def reuse(sh, rec, M):
    """Earlier results stay; overwritten results and reused input arrays have no effect."""
    c = sh["cls"]
    for s, t, t2 in itertools.product(range(2), range(3), range(3)):
        key = {"cls": c, "reuse": [s, t, t2]}
        with rec.case(key):
            o = new(M, c)
            for op in ["S%d" % s, "T%d" % t] + (["W"] if c[0] == "m" else []):
                apply(rec, o, c, op, s)
            f = field(c, s)
            r1 = rec.call(o.remap, f, verbose=False)
            keep = np.array(r1, copy=True)
            g = f.copy()
            g[:] = g*2. + 1.
            r2 = rec.call(o.remap, g, verbose=False)
            k2 = np.array(r2, copy=True)
            rec.check(np.array_equal(r1, keep, equal_nan=True), key, "an earlier result changed")
            f2 = f.copy()
            rec.call(o.remap, f2, verbose=False)
            f2[:] = g
            rec.check(np.array_equal(rec.call(o.remap, f2, verbose=False), k2, equal_nan=True), key,
                      "a reused input array gives the result of its old contents")
            try:
                np.asarray(r2)[...] = -99.
            except ValueError:
                pass
            rec.check(np.array_equal(rec.call(o.remap, g, verbose=False), k2, equal_nan=True), key,
                      "overwriting a result changes the next one")
            for op in ["T%d" % t2] + (["W"] if c[0] == "m" else []):
                apply(rec, o, c, op, s)
            rec.call(o.remap, f, verbose=False)
            rec.check(np.array_equal(r1, keep, equal_nan=True), key,
                      "an earlier result changed after a new set-up")
            # default centres are not changed by objects that used them
            o2 = new(M, c)
            for op in ["S%d" % s, "T0"] + (["W"] if c[0] == "m" else []):
                apply(rec, o2, c, op, s)
            x = rec.call(o2.remap, f, verbose=False)
            o3 = new(M, c)
            for op in ["S%d" % s, "T0"] + (["W"] if c[0] == "m" else []):
                apply(rec, o3, c, op, s)
            rec.check(np.array_equal(x, rec.call(o3.remap, f, verbose=False), equal_nan=True), key,
                      "equal set-ups differ")


def pov(rec, M):
    setups = [(([0., 0., 0.], [1., 1., 0.], 1.), {}), (([1., 2., 3.], [0., 0., 0.5], 0.5), {"spin": 1.}),
              (([0., 0., 0.], [0., -1., 2.], 2.), {"spin": 4.}),
              (([0., 0., 0.], [0., -1., 2.], 1.), {}), (([1., 2., 3.], [0., -1., 2.], 1.), {})]
    p = [np.array([1., 2., -1.3]), np.array([0.5, -2., 0.7]), np.array([0.3, 0.8, 2.])]

    def ans(o):
        b = rec.call(o.transform, *p)
        return [np.array(x) for x in b] + [np.array(x) for x in rec.call(o.reverse, *b)]
    ref = []
    for a, k in setups:
        o = M.densegrid.PointOfView()
        rec.call(o.setup, *a, **k)
        ref.append(ans(o))
    for d in range(1, 5):
        for hist in itertools.product("01234UC", repeat=d):
            if hist[-1] == "U":
                continue
            key = {"cls": "pov", "history": hist}
            with rec.case(key):
                o = M.densegrid.PointOfView()
                up = False
                for op in hist:
                    if op == "C":
                        rec.call(o.clean)
                        up = False
                    elif op == "U":
                        if up:
                            ans(o)
                    else:
                        a, k = setups[int(op)]
                        rec.call(o.setup, *a, **k)
                        up = True
                if hist[-1] != "C":
                    rec.check(same(ans(o), ref[int(hist[-1])]), key, "view differs from that of a new object")
                    continue
                for q in (o.transform, o.reverse):
                    try:
                        r = rec.call(q, *p)
                        rec.fail(key, "a cleaned view answers", got=r)
                    except Exception:
                        rec.outcome(0)
