"""C36: a call leaves nothing behind: no answer depends on the calls made before it."""
import itertools
import os
import pickle
import random
import signal
import sys
import traceback
import warnings

import numpy as np

from mc.checks import c13
from mc.core import close

SRC = True
MAPS = True
PI, TWO = np.pi, 2*np.pi
BOUNDS = {
    "quick": "every public function with up to 7 argument tuples each and, for 3 of them, every "
             "tuple with one argument slightly changed, reversed or one larger; 9 remappers and the "
             "point of view with 9-20 set-ups each that differ in one argument or exchange two; every "
             "ordered pair within a function or class (in a fresh process, with new arrays, with the "
             "first call's arrays overwritten, and on the first call's object), every call "
             "repeated after its results are overwritten and, for objects, after the caller changed the lists or "
             "arrays given to the set-up, every ordered pair of two functions",
    "thorough": "20 tuples per function, every triple of set-ups of a class within 6 of them",
}
ASSUMPTIONS = ["random functions are seeded before each call",
               "the first answer in a fresh process is the reference; other checks decide whether it is right"]

# --------------------------------------------------------------------------- running in a fork


def forked(fn):
    """fn() in a child process; its value, or an exception."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(120)
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("failed", traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f, protocol=4)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0 or not data:
        raise RuntimeError("the process died (status %d)" % st)
    kind, val = pickle.loads(data)
    if kind != "ok":
        raise RuntimeError(val)
    return val


def world(rng):
    """What a call must not change."""
    s = [repr(np.geterr()), repr(np.get_printoptions()), repr(warnings.filters), os.getcwd(),
         repr(random.getstate()), repr(sorted(os.environ.items())), sys.getrecursionlimit()]
    if rng:
        q = np.random.get_state()
        s.append((q[0], q[1].tobytes(), q[2:]))
    return s


NAMES = ["NumPy error handling", "print options", "warning filters", "working directory",
         "Python's random state", "environment", "recursion limit", "NumPy's random state"]


def copy(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(copy(v) for v in x)
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    return x


def arrays_in(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays_in(v)]
    if isinstance(x, dict):
        return [a for v in x.values() for a in arrays_in(v)]
    return []


class Runner:
    """Runs steps of a history; lives in the child."""

    def __init__(self, M):
        self.M = M
        self.objs = {}

    def step(self, case, args=None, same=False):
        name, fn, a0, k0, det = case
        a, k = args if args is not None else (copy(a0), copy(k0))
        np.random.seed(3)
        # settings a user may have chosen, and which no call may switch off
        np.seterr(all="warn")
        before = world(det)
        drawn[:] = []
        try:
            if isinstance(fn, str):
                o = self.objs.get(fn) if same else None
                o = self.objs[fn] = o if o is not None else newobj(self.M, fn)
                r = scenario(self.M, fn, o, *a, **k)
            else:
                r = fn(*a, **k)
        except Exception as e:
            r = "refused: " + type(e).__name__
        after = world(det)
        changed = [n for n, x, y in zip(NAMES, before, after) if x != y]
        if isinstance(fn, str) and len(set(drawn)) > 1:
            changed.append("NumPy's random state, by a method that draws nothing")
        return r, changed, (a, k)


def plain(r):
    if isinstance(r, str):
        return [r]
    return [np.array(x) for x in c13.flat(r)]


def equal(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return False
        elif x.shape != y.shape or x.dtype != y.dtype:
            return False
        elif x.dtype.kind in "fc":
            if not close(x, y, 1e-12):
                return False
        elif not np.array_equal(x, y):
            return False
    return True

# --------------------------------------------------------------------------- the calls


RANDOM = ("random", "stochastic", "shuffle")


def scalars(M):
    """(name, function, argument tuples) of the functions without array arguments."""
    c, g, p, r = M.coords, M.grids, M.pixel, M.randoms
    out = []

    def e(fn, *cases):
        out.append((fn.__name__, fn, [(q, {}) if isinstance(q, tuple) else ((), q) for q in cases]))
    e(c.usphere_area, (0., 1., 0., 1.), (0., 1., 0., 1.5), (0., 1., 0.5, 1.), (0.5, 1., 0., 1.), (0., 2., 0., 1.))
    e(g.get_xedges, (1., 4), (1., 5), (2., 4), (1., 4, 0.5), (1., 4, -0.5), (1, 4))
    e(g.grid1d, (1., 4), (1., 5), (2., 4), (1., 4, 0.5), (1., 4, -0.5), (1., 4, None, True), (1., 4, 0.5, True))
    e(g.grid2d, (1., 4), (1., [4, 3]), (1., [3, 4]), (1., [2, 6]), ([1., 2.], [3, 4]), ([2., 1.], [3, 4]),
      (1., 4, [0.5, None]), (1., 4, [None, 0.5]), (1., 4, [None, None], True))
    e(g.grid3d, (1., 3), (1., [4, 3, 1]), (1., [3, 4, 1]), (1., [1, 4, 3]), ([1., 2., 3.], [3, 4, 1]),
      ([2., 1., 3.], [3, 4, 1]), (1., 3, [0.5, None, None]), (1., 3, [None]*3, True))
    e(g.polarEA_area, (3,), (4,), (3, 2.), (3, 1., 5), (3, 1., 6))
    e(g.polarEA_npix, (3,), (4,), (3, 5), (3, 6))
    e(g.polarEA_grid, (3,), (4,), (3, 2.), (3, 1., 5), (3, 1., 6))
    e(g.polargrid, (3, 4), (4, 3), (2, 6), (3, 4, 0.1), (3, 4, 0., 2.), (3, 4, 0., 1., 0.1),
      (3, 4, 0., 1., 0., 3.), (3, 4, 0., 1., 0., TWO, True))
    e(p.get_arc, (1.,), (2.,), (1., 0.5), (1., 0., 3.), (1., 0., TWO, [0., 0.5]), (1., 0., TWO, [0.5, 0.]),
      (1., 0., TWO, [0., 0.], 11))
    e(p.get_disc, (), (0.5,), (0., 2.), (0., 1., 0.5), (0., 1., 0., 3.), (0., 1., 0., TWO, [0., 0.5]),
      (0., 1., 0., TWO, [0.5, 0.]), (0., 1., 0., TWO, [0., 0.], 44))
    e(p.get_square, (0., 1., 0., 2.), (0., 2., 0., 1.), (0., 1., 0., 2., 44), (-1., 1., 0., 2.))
    b = (0., 1., 0., 2., -1., 1.)
    e(p.get_box, b, (0., 2., 0., 1., -1., 1.), b + (132,), b + (120, True), b + (120, True, [5., 0., 0.]),
      b + (120, True, [0., 5., 0.]), b + (120, True, [0., 0., 5.]), b + (120, True, [-5., 3., 5.]))
    for f in (p.healpix_boundary, p.healpix_boundary_top, p.healpix_boundary_bot):
        e(f, (0, 1), (4, 1), (11, 1), (0, 2), (4, 2), (40, 2), (20, 4), (4, 2, 8), (4, 2, 12), (4, 2, 8, True))
    for f in (p.healpix_pix2ij, p.healpix_pix2xy):
        e(f, (0, 1), (5, 1), (5, 2), (40, 2), (5, 4), (100, 4))
    for f in (p.healpix_ij2pix, p.healpix_ij2xy, p.healpix_j2jd):
        e(f, (1, 1, 1), (2, 3, 1), (2, 3, 2), (3, 2, 2), (5, 4, 4), (4, 5, 4), (12, 3, 4))
    e(p.healpix_i2id, (1, 1), (3, 1), (1, 2), (3, 2), (3, 4), (12, 4))
    s = p.healpix_ijs_neighbours
    e(s, (1, 1, 1), (2, 3, 2), (3, 2, 2), (5, 4, 4), (4, 5, 4), (2, 3, 4))
    e(r.randoms_1d, (4,), (5,), (4, 0.5), (4, 0., 2.))
    e(r.randoms_2d, (4,), (5,), (4, [0.5, 0.]), (4, [0., 0.5]), (4, [0., 0.], [1., 2.]), (4, [0., 0.], [2., 1.]))
    e(r.randoms_3d, (4,), (5,), (4, [0.5, 0., 0.]), (4, [0., 0., 0.5]), (4, [0., 0., 0.], [1., 2., 3.]))
    e(r.randoms_polar, (4,), (5,), (4, 0.5), (4, 0., 2.), (4, 0., 1., 1.), (4, 0., 1., 0., 3.))
    e(r.randoms_sphere_r, (4,), (5,), (4, 0.5), (4, 0., 2.))
    e(r.randoms_sphere, (4,), (5,), (4, 0.5), (4, 0., 2.), (4, 0., 1., 1.), (4, 0., 1., 0., 3.),
      (4, 0., 1., 0., TWO, 1.), (4, 0., 1., 0., TWO, 0., 1.))
    e(r.randoms_usphere, (4,), (5,), (4, 1.), (4, 0., 3.), (4, 0., TWO, 1.), (4, 0., TWO, 0., 1.))
    e(r.randoms_healpix_pixel, (4, 0, 1), (4, 5, 1), (4, 0, 2), (4, 5, 2), (5, 5, 2), (4, 40, 2), (4, 100, 4))
    return out


def resolve(x):
    if isinstance(x, (c13.A, c13.L)):
        return copy(x.v)
    return x


def groups(M, per):
    """{name: [case]}: what every shard starts from; made in a child."""
    out = {}
    for name, fn, cases in c13.entries(M, "quick") + scalars(M):
        out.setdefault(fn, []).extend(
            [(tuple(resolve(x) for x in a), {q: resolve(x) for q, x in k.items()}) for a, k in cases])
    res = {}
    for fn, cs in out.items():
        name = fn.__module__ + "." + fn.__name__
        det = not fn.__name__.startswith(RANDOM)
        n = len(cs)
        if n > per:
            cs = [cs[i*(n - 1)//(per - 1)] for i in range(per)]
        res[name] = [(name, fn, a, k, det) for a, k in cs]
    return res


def nudge(x):
    """Values close to x or of the same make."""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return []
    if isinstance(x, (int, np.integer)):
        return [x + 1]
    if isinstance(x, (float, np.floating)):
        return [x*(1 + 1e-7) + 1e-9, x + 0.25]
    if isinstance(x, np.ndarray):
        if x.size == 0 or x.dtype.kind not in "iuf":
            return [x[::-1].copy()] if x.size > 1 else []
        out = []
        if x.size > 1:
            out.append(x[::-1].copy())
            y = x.copy()
            y.flat[0], y.flat[-1] = x.flat[-1], x.flat[0]
            out.append(y)
        y = x.copy()
        y.flat[-1] += y.dtype.type(1) if x.dtype.kind in "iu" else 1e-7
        out.append(y)
        z = x.copy()
        z.flat[x.size//2] += y.dtype.type(1) if x.dtype.kind in "iu" else 0.125
        out.append(z)
        if x.dtype.kind == "f":
            z = x.copy()
            z.flat[x.size//2] = np.nan
            out.append(z)
        return out
    if isinstance(x, list):
        out = [x[::-1]]
        for i, v in enumerate(x):
            for q in nudge(v)[:1]:
                out.append(x[:i] + [q] + x[i + 1:])
        return out
    return []


def twins(case):
    name, fn, a, k, det = case
    out = []
    for i, x in enumerate(a):
        for y in nudge(x):
            out.append((name, fn, a[:i] + (y,) + a[i + 1:], k, det))
    for q in sorted(k):
        for y in nudge(k[q]):
            out.append((name, fn, a, {**k, q: y}, det))
    for i, j in itertools.combinations(range(len(a)), 2):
        if type(a[i]) is type(a[j]) and np.shape(a[i]) == np.shape(a[j]):
            b = list(a)
            b[i], b[j] = b[j], b[i]
            out.append((name, fn, tuple(b), k, det))
    return out

# --------------------------------------------------------------------------- objects


def base_and_changes(c):
    """(source, target, options) tuples: a base and its changes."""
    kind = c[1:]
    if kind == "B2R":
        s, t = (-1., 1., 4, -1., 1., 3), (0.1, 0.9, 2, 3)
        src = [(-1., 1., 3, -1., 1., 4), (-1., 1., 2, -1., 1., 6), (-1., 1., 6, -1., 1., 2),
               (-1., 1., 12, -1., 1., 1), (-1., 1., 4, -1.5, 1.5, 3), (-1.5, 1.5, 4, -1., 1., 3),
               (-1., 1.2, 4, -1., 1., 3), (-1., 1., 4, -1., 1.2, 3)]
        tgt = [(0.1, 0.9, 3, 2), (0.1, 0.9, 1, 6), (0.1, 0.9, 6, 1), (0.2, 0.9, 2, 3), (0.1, 1., 2, 3),
               (0.1000001, 0.9, 2, 3)]
        opt = [{"center": [0.3, 0.1]}, {"center": [0.1, 0.3]}, {"phi_shift": 0.4}, {"phi_shift": 0.40001},
               {"pmin": 0.4}, {"pmax": 5.}]
        if c[0] == "d":
            opt += [{"rebin_r": 3, "rebin_p": 2}, {"rebin_r": 2, "rebin_p": 3}, {"rebin_r": 1, "rebin_p": 6}]
        else:
            opt += [{"log": True}, {"log": True, "addzero": False}, {"mc_size": 13}]
    elif kind == "C2S":
        s, t = (-1., 1., 2, -1., 1., 3, -1., 1., 1), (0.1, 0.9, 2, 1)
        src = [(-1., 1., 3, -1., 1., 2, -1., 1., 1), (-1., 1., 1, -1., 1., 3, -1., 1., 2),
               (-1., 1., 6, -1., 1., 1, -1., 1., 1), (-1., 1., 2, -1.5, 1.5, 3, -1., 1., 1),
               (-1., 1., 2, -1., 1., 3, -1.5, 1.5, 1)]
        tgt = [(0.1, 0.9, 1, 1), (0.2, 0.9, 2, 1), (0.1, 1., 2, 1), (0.1, 0.9, 1, 2)]
        opt = [{"center": [0.3, 0.1, 0.]}, {"center": [0., 0.1, 0.3]}]
        opt += [{"rebin_r": 1, "rebin_shell": 2}, {"rebin_r": 2, "rebin_shell": 1}, {"periodicx": [-1, 1]},
                {"periodicy": [-1, 1]}, {"periodicx": [-1, 0], "periodicz": [0, 1], "center": [0.2, 0., 0.1]}] if c[0] == "d" else \
            [{"log": True}, {"log": True, "addzero": False}, {"mc_size": 13}]
    elif kind == "H2R":
        s, t = (2,), (0.1, 0.9, 2, 3)
        src = [(1,), (4,)]
        tgt = [(0.1, 0.9, 3, 2), (0.1, 0.9, 1, 6), (0.1, 0.9, 6, 1), (0.2, 0.9, 2, 3), (0.1, 1., 2, 3)]
        opt = [{"center": [1., 0.5]}, {"center": [0.5, 1.]}, {"center": [0.5, 1.0001]}, {"beta_shift": 0.4},
               {"beta_shift": 0.40001}, {"beta_min": 0.4}, {"beta_max": 5.}]
        opt += [{"rebin_alpha": 3, "rebin_beta": 2}, {"rebin_alpha": 2, "rebin_beta": 3},
                {"rebin_alpha": 1, "rebin_beta": 6}] if c[0] == "d" else [{"mc_size": 13}]
    elif kind == "H2P":
        s, t = (2,), (1., 3)
        src = [(1,), (4,)]
        tgt = [(1., 2), (2., 3), (0.5, 6)]
        opt = [{"center": [1., 0.5]}, {"center": [0.5, 1.]}, {"alpha": 0.4}, {"alpha": 0.40001},
               {"y_length": 2.}, {"y_grid": 2}, {"y_grid": 4}, {"y_length": 2., "y_grid": 2}]
        opt += [{"rebin_x": 3, "rebin_y": 2}, {"rebin_x": 2, "rebin_y": 3}, {"rebin_x": 1, "rebin_y": 6}] \
            if c[0] == "d" else [{"mc_size": 13}]
    elif kind == "H2O":
        s, t = (2,), (1.8, 3)
        src = [(1,), (4,)]
        tgt = [(1.8, 2), (1., 3), (1.8, 6)]
        opt = [{"center": [1., 0.5]}, {"center": [0.5, 1.]}, {"radius": 1.4}, {"y_length": 1.}, {"y_grid": 2},
               {"y_grid": 4}, {"rebin_x": 3, "rebin_y": 2}, {"rebin_x": 2, "rebin_y": 3},
               {"rebin_x": 1, "rebin_y": 6}]
    else:
        s, t = ([0., 0., 0.], [1., 1., 0.], 1.), ()
        src = [([0., 0., 0.5], [1., 1., 0.], 1.), ([0.5, 0., 0.], [1., 1., 0.], 1.),
               ([0., 0., 0.], [1., 0., 1.], 1.), ([0., 0., 0.], [2., 2., 0.], 1.), ([0., 0., 0.], [1., 1., 0.], 0.5),
               ([0., 0., 0.], [-1., -1., 0.], 1.)]
        tgt, opt = [], [{"spin": 0.5}, {"spin": 0.50001}, {"spin": PI}]
    out = [(s, t, {})] + [(q, t, {}) for q in src] + [(s, q, {}) for q in tgt] + [(s, t, q) for q in opt]
    return out


CLS = ["dB2R", "mB2R", "dC2S", "mC2S", "dH2R", "mH2R", "dH2P", "mH2P", "dH2O", "pov"]


def newobj(M, c):
    mod, name = c13.OBJ[c]
    return getattr(getattr(M, mod), name)()


drawn = []


def random_state():
    q = np.random.get_state()
    return (q[1].tobytes(),) + tuple(q[2:])


def meddle(*args):
    """The caller goes on using its lists and arrays."""
    for x in args:
        if isinstance(x, dict):
            meddle(*x.values())
        elif isinstance(x, np.ndarray):
            x += x.dtype.type(2)
        elif isinstance(x, list):
            for i, v in enumerate(x):
                x[i] = v + 2
        elif isinstance(x, tuple):
            meddle(*x)


def asarrays(x):
    if isinstance(x, list):
        return np.array(x)
    if isinstance(x, tuple):
        return tuple(asarrays(v) for v in x)
    if isinstance(x, dict):
        return {k: asarrays(v) for k, v in x.items()}
    return x


def scenario(M, c, o, s, t, opt, after=lambda *a: None):
    """One whole use of an object: its answers."""
    kind = c[1:]
    opt = dict(opt)
    v = {"verbose": False}
    if c == "pov":
        p = [np.array([1., 2., -1.3]), np.array([0.5, -2., 0.7]), np.array([0.3, 0.8, 2.])]
        o.setup(*s, **opt)
        after(s, t, opt)
        b = o.transform(*p)
        return list(b) + list(o.reverse(*b))
    log, size = opt.pop("log", False), opt.pop("mc_size", 12)
    if kind == "B2R":
        o.setup_box(*s)
        shape = (s[5], s[2])
        (o.setup_polar if c[0] == "d" else o.setup_polar_log if log else o.setup_polar_lin)(*t, **opt)
    elif kind == "C2S":
        o.setup_cube(*s)
        shape = (s[5], s[2], s[8])
        (o.setup_polar if c[0] == "d" else o.setup_polar_log if log else o.setup_polar_lin)(*t, **opt)
    else:
        o.setup_map(*s)
        shape = (12*s[0]**2,)
        (o.setup_polar_cap if kind == "H2R" else o.setup_box)(*t, **opt)
    after(s, t, opt)
    if c[0] == "m":
        o.get_weights(mc_size=size, **v)
    drawn[:] = [random_state()]   # from here on nothing is random
    n = int(np.prod(shape))
    f = (3*np.cos(np.arange(n)*1.7) + np.arange(n)).reshape(shape)
    w = (0.5 + np.arange(n) % 3).reshape(shape)
    out = [o.remap(f, **v)]
    if c != "dC2S":
        out.append(o.remap(f, w=w, **v))
    if kind in ("B2R", "H2R"):
        fp = np.cos(np.arange(out[0].size)*1.3).reshape(out[0].shape)
        out += list(o.polar2radial(fp, sigma=np.abs(fp) + 0.1))
        if np.isclose(opt.get("pmax", opt.get("beta_max", TWO)) - opt.get("pmin", opt.get("beta_min", 0.)), TWO):
            out.append(o.rotate_polar(fp, 0.7))
    if kind == "B2R":
        o.get_mask_in_bound(**v)
        out.append(o.mask_in_bound)
    if c == "dH2O":
        out += list(o.transform(np.array([0.3, 2., 4.]), np.array([0.4, 1.5, 3.])))
    drawn.append(random_state())
    return out


def setups(c):
    return [(c, c, q, {}, c[0] != "m") for q in base_and_changes(c)]

# --------------------------------------------------------------------------- shards


NF, NX = 24, 24


def shards(tier):
    per = 7 if tier == "quick" else 20
    out = [{"kind": "class", "cls": c, "part": i, "of": 3, "t": tier} for c in CLS for i in range(3)]
    out += [{"kind": "fn", "part": i, "of": NF, "per": per} for i in range(NF)]
    out += [{"kind": "cross", "part": i, "of": NX, "per": per} for i in range(NX)]
    return out


def describe(case):
    return {"call": case[0], "args": case[2], "kw": case[3]}


def run(sh, rec, M):
    cache = {}

    def alone(case, i):
        """The answer in a fresh process, and what it changed."""
        if i not in cache:
            def f():
                r, ch, _ = Runner(M).step(case)
                return plain(r), ch
            cache[i] = forked(f)
            rec.calls += 1
        return cache[i]

    def first(case, i):
        key = {"first": describe(case)}
        with rec.case(key):
            r, ch = alone(case, i)
            for x in r:
                if isinstance(x, str):
                    rec.count("refused")
                else:
                    rec.outcome(x)
            rec.check(not ch, key, "a call changes the process", changed=ch)

            def again():
                """The same call after its results were overwritten, with the same arguments."""
                R = Runner(M)
                r1, _, args = R.step(case)
                mine = arrays_in(list(args))
                for x in arrays_in(r1) if not isinstance(r1, str) else []:
                    if x.flags.writeable and not any(np.shares_memory(x, y) for y in mine):
                        x[...] = x.dtype.type(77) if x.dtype.kind in "iuf" else x.flat[0] if x.size else 0
                r2, ch2, _ = R.step(case)
                r3, _, _ = R.step(case)
                return plain(r2), plain(r3), ch2
            r2, r3, ch2 = forked(again)
            rec.calls += 3
            rec.check(equal(r2, r) and equal(r3, r), key, "repeated after its result was overwritten",
                      got=r2, want=r)
            rec.check(not ch2, key, "a repeated call changes the process", changed=ch2)

    def later(case, i):
        """The caller changes the lists or arrays it gave to the set-up."""
        want = alone(case, i)[0]
        for form in ("lists", "arrays"):
            key = {"first": describe(case), "form": form + " changed after the set-up"}
            with rec.case(key):
                def f():
                    a = copy(case[2])
                    np.random.seed(3)
                    try:
                        r = scenario(M, case[1], newobj(M, case[1]), *(a if form == "lists" else asarrays(a)), after=meddle)
                    except Exception as e:
                        r = "refused: " + type(e).__name__
                    return plain(r)
                r = forked(f)
                rec.calls += 1
                rec.state(key)
                rec.check(equal(r, want), key, "the answer follows what the caller does with its own lists", got=r,
                          want=want)

    def tour(a, i, rest, form):
        """a, b1, a, b2, a, ... in one process: every ordered pair that has a in it."""
        for j, b in rest:
            alone(b, j)
        key = {"first": describe(a), "form": form, "then": [describe(b) for _, b in rest][:3]}
        with rec.case(key):
            def f():
                R = Runner(M)
                same = form == "same object"
                out = []
                kept, _, args = R.step(a, same=same)
                shown = plain(kept)
                for j, b in rest:
                    if form == "overwritten":
                        r, ch, _ = R.step(b, reuse(args, b))
                    else:
                        r, ch, _ = R.step(b, same=same)
                    still = form == "overwritten" or equal(plain(kept), shown)
                    q, _, args = R.step(a, same=same)
                    out.append((plain(r), plain(q), ch, still))
                return out
            back = alone(a, i)[0]
            got = forked(f)
            for (j, b), (r, q, ch, still) in zip(rest, got):
                want = alone(b, j)[0]
                key = {"first": describe(a), "then": describe(b), "form": form}
                rec.state(key)
                rec.calls += 3
                rec.check(equal(r, want), key, "the answer depends on the call before it", got=r, want=want)
                rec.check(equal(q, back), key, "the first answer changes after another call", got=q, want=back)
                rec.check(not ch, key, "a call changes the process", changed=ch)
                rec.check(still, key, "an earlier result changed")

    def reuse(args, b):
        """b's arguments in the arrays that were passed before."""
        old, new = arrays_in(list(args)), arrays_in([b[2], b[3]])
        for x, y in zip(old, new):
            x[...] = y
        it = iter(old)

        def put(x):
            if isinstance(x, np.ndarray):
                return next(it)
            if isinstance(x, (list, tuple)):
                return type(x)(put(v) for v in x)
            if isinstance(x, dict):
                return {k: put(v) for k, v in x.items()}
            return x
        return put((b[2], b[3]))

    def fits(a, b):
        x, y = arrays_in([a[2], a[3]]), arrays_in([b[2], b[3]])
        return x and len(x) == len(y) and all(p.shape == q.shape and p.dtype == q.dtype
                                              for p, q in zip(x, y))
    if sh["kind"] == "class":
        cs = setups(sh["cls"])
        for i, a in enumerate(cs):
            if i % sh["of"] != sh["part"]:
                continue
            first(a, i)
            later(a, i)
            rest = [(j, b) for j, b in enumerate(cs) if j != i]
            tour(a, i, rest, "new")
            tour(a, i, rest, "same object")
        if sh["t"] == "thorough":
            triples(sh, rec, M, cs, alone)
    elif sh["kind"] == "fn":
        gs = forked(lambda: pickle.dumps(groups(M, sh["per"])))
        gs = pickle.loads(gs)
        for name in sorted(gs)[sh["part"]::sh["of"]]:
            cs = gs[name]
            cache.clear()
            ids = {}
            every = list(cs)
            for i in sorted({0, len(cs)//2, len(cs) - 1}):
                for tw in twins(cs[i]):
                    ids.setdefault(i, []).append(len(every))
                    every.append(tw)
            for i, a in enumerate(every):
                first(a, i)
            for i, a in enumerate(every):
                rest = [(j, every[j]) for j in range(len(cs)) if j != i and (i < len(cs) or i in ids.get(j, ()))]
                rest += [(j, every[j]) for j in ids.get(i, ())]
                tour(a, i, rest, "new")
                rest = [(j, b) for j, b in rest if fits(a, b)]
                if rest:
                    tour(a, i, rest, "overwritten")
    else:
        gs = pickle.loads(forked(lambda: pickle.dumps(groups(M, sh["per"]))))
        reps = [gs[n][len(gs[n])//2] for n in sorted(gs)] + [setups(c)[0] for c in CLS]
        rec.count("functions and classes", len(reps) if sh["part"] == 0 else 0)
        for i, a in enumerate(reps):
            if i % sh["of"] != sh["part"]:
                continue
            tour(a, i, [(j, b) for j, b in enumerate(reps) if i != j], "new")


def triples(sh, rec, M, cs, alone):
    """Three set-ups in a row, on one object and on three."""
    pick = sorted({q*(len(cs) - 1)//5 for q in range(6)})
    for n, t in enumerate(itertools.permutations(pick, 3)):
        if n % sh["of"] != sh["part"]:
            continue
        for same in (False, True):
            key = {"cls": sh["cls"], "set-ups": t, "same object": same}
            with rec.case(key):
                def f():
                    R = Runner(M)
                    return [plain(R.step(cs[i], same=same)[0]) for i in t]
                got = forked(f)
                rec.calls += 3
                rec.check(all(equal(g, alone(cs[i], i)[0]) for g, i in zip(got, t)), key,
                          "the answer depends on the set-ups before it")
