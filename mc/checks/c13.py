"""C13: nothing passed to the library is changed by it, and any array is accepted."""
import inspect
import itertools

import numpy as np

from mc.core import close

SRC = True
MAPS = True
PI, TWO = np.pi, 2*np.pi
BOUNDS = {
    "quick": "every public function and every method of the 10 classes; for functions every tuple of "
             "argument values from an alphabet reaching the in-place branches (all quadrants, angles "
             "beyond a full turn, zero and large weights, masked cells); arrays plain, read-only, "
             "strided, reversed, in Fortran order and of other number types; objects: every "
             "sequence of 3 uses after set-up (3 set-ups, for boxes and cubes also one that lies wholly "
             "outside), all arrays ever passed are watched",
    "thorough": "longer arrays and sequences of 4 uses",
}
ASSUMPTIONS = ["a result may share memory with an argument as long as no call changes it",
               "the caller does not change arrays while the library uses them"]


class A:
    """An array argument."""

    def __init__(self, v, forms=None):
        self.v = np.array(v)
        self.forms = forms


class L:
    """A list argument (also given as a read-only array when both is set)."""

    def __init__(self, v, both=True):
        self.v = list(v)
        self.both = both


class S:
    """An array argument that may be a scalar instead: array only here."""


FORMS = ("plain", "readonly", "strided", "reversed", "fortran", "roview")


def shape_up(v, form):
    """(object to pass, base to watch)."""
    if form == "plain":
        a = v.copy()
        return a, a
    if form == "readonly":
        a = v.copy()
        a.setflags(write=False)
        return a, a
    if form == "strided":
        b = np.zeros(tuple(2*n + 1 for n in v.shape), v.dtype) + (v.flat[0] if v.size else 0)
        s = tuple(slice(1, 2*n + 1, 2) for n in v.shape)
        b[s] = v
        return b[s], b
    if form == "reversed":
        s = tuple(slice(None, None, -1) for _ in v.shape)
        b = v[s].copy()
        return b[s], b
    if form == "fortran":
        a = np.asfortranarray(v.copy())
        return a, a
    if form == "roview":
        b = v.copy()
        a = b[:]
        a.setflags(write=False)
        return a, b
    raise ValueError(form)


class Watch:
    """Every object passed, with what it held."""

    def __init__(self):
        self.items = []

    def add(self, x, form):
        if isinstance(x, A):
            a, base = shape_up(x.v, form)
            self.items.append((a, base, base.tobytes(), base.dtype, base.shape,
                               a.flags.writeable))
            return a
        if isinstance(x, L):
            if x.both and form in ("readonly", "strided"):
                return self.add(A(np.array(x.v, float)), form)
            r = list(x.v)
            self.items.append((r, r, repr(r), None, None, None))
            return r
        return x

    def intact(self):
        for a, base, b, dt, sh, wr in self.items:
            if dt is None:
                if repr(base) != b:
                    return False, base
            elif base.tobytes() != b or base.dtype != dt or base.shape != sh or \
                    a.flags.writeable != wr:
                return False, base
        return True, None


def tuples(alpha, n):
    return [np.array(t, float) for t in itertools.product(alpha, repeat=n)]


def entries(M, tier):
    """(name, function, list of (args, kwargs), needs seed)"""
    t = tier == "thorough"
    n = 3 if t else 2
    c, g, o, p, po, r, rm = M.coords, M.grids, M.one_d, M.pixel, M.polar, M.randoms, M.remap
    out = []

    def e(name, fn, cases):
        out.append((name, fn, cases))
    xy = [(a, b) for a in tuples((-1., 0., 2.), n) for b in tuples((-1.5, 0., 1.), n)]
    e("cart2polar", c.cart2polar, [((A(a), A(b)), k) for a, b in xy
                                   for k in ({}, {"center": L([0.5, -0.25])})])
    e("polar2cart", c.polar2cart, [((A(abs(a)), A(b)), k) for a, b in xy
                                   for k in ({}, {"center": L([0.5, -0.25])})])
    e("cart2sphere", c.cart2sphere, [((A(a), A(b), A(a[::-1] - 0.5*b)), k) for a, b in xy
                                     for k in ({}, {"center": L([0.5, -0.25, 1.])})])
    e("cart2sphere 2d", c.cart2sphere,
      [((A(np.array([a, b])), A(np.array([b, a])), A(np.array([a, -b]))), k) for a, b in xy[::5]
       for k in ({}, {"center": L([0.5, -0.25, 1.])})])
    e("sphere2cart", c.sphere2cart, [((A(abs(a) + 0.5), A(b + 2.), A(abs(a))), k) for a, b in xy
                                     for k in ({}, {"center": L([0.5, -0.25, 1.])})])
    e("sphere2cart scalar r", c.sphere2cart, [((1., A(b + 2.), A(abs(a))), {}) for a, b in xy])
    e("ortho2cart", c.ortho2cart, [((A(a), A(b)), {"r": q}) for a, b in xy for q in (1., 2.5)])
    ph = tuples((0., 1., 4., TWO), n)
    th = tuples((0., 0.3, PI/2, 2.5, PI), n)
    e("healpix_ang2xy", c.healpix_ang2xy, [((A(a), A(b)), {}) for a in ph for b in th])
    hx = [c.healpix_ang2xy(a, b) for a in ph for b in th]
    e("healpix_xy2ang", c.healpix_xy2ang, [((A(a), A(b)), {}) for a, b in hx])
    e("sphere2lonlat", c.sphere2lonlat, [((A(b),), {}) for b in th])
    e("lonlat2sphere", c.lonlat2sphere, [((A(b - PI/2),), {}) for b in th])
    e("rotate_polar", c.rotate_polar, [((A(a), s), {}) for a in ph for s in (0.5, 3., 6.2)])
    e("rotate_polar 2d", c.rotate_polar, [((A(np.array([a, a + 0.1])), 3.), {}) for a in ph])
    for k in (1, 2, 4):
        f = np.cos(np.arange(3.*k)).reshape(k, 3)
        e("rotate_polar_grid %d" % k, c.rotate_polar_grid,
          [((A(np.linspace(0., q, k + 1)), A(f), s), {}) for q in (TWO, 3.)
           for s in (0.1, 0.8, 1.6, 2.9, 3.1, 6.) if s < q])
    e("usphere_phi_shift", c.usphere_phi_shift,
      [((A(a), s), {}) for a in ph for s in (-TWO, -4., -0.5, 0., 0.5, 4., TWO)])
    e("usphere_phi_shift 2d", c.usphere_phi_shift,
      [((A(np.array([a, a[::-1]])), s), {}) for a in ph for s in (-4., 0., 4.)])
    ends = [(1., 0.5, 3., 2.), (0., 0., 1., 1.), (2., 1.2, 2., 1.2), (5., 3., 0.2, PI/2),
            (1., 0., 4., 0.), (1., PI, 0.5, 0.3)]
    pts = [(A(a), A(b)) for a, b in zip(ph*3, th*3)]
    e("usphere_rotate", c.usphere_rotate,
      [((a, b, q[2], q[3]), {"phi_start": q[0], "theta_start": q[1]}) for a, b in pts
       for q in ends if q[:2] != q[2:]])
    e("usphere_shift", c.usphere_shift, [((a, b) + q, {}) for a, b in pts for q in ends])
    e("usphere_spin", c.usphere_spin,
      [((a, b, q[0], q[1], s), {}) for a, b in pts for q in ends for s in (0., 1., 4.)
       if q[1] != PI])
    # grids
    e("xedges2mid", g.xedges2mid, [((A(np.linspace(0., 2., k)),), {}) for k in (2, 3, 6)])
    e("xmid2edges", g.xmid2edges, [((A(np.linspace(0., 2., k)),), {}) for k in (2, 3, 6)])
    e("grid2d", g.grid2d, [((a, b), k) for a in (2., L([2., 3.])) for b in (2, L([2, 3], False))
                           for k in ({}, {"mins": L([-1., None], False)},
                                     {"mins": L([-1., 2.]), "return1d": True})])
    e("grid3d", g.grid3d, [((a, b), k) for a in (2., L([2., 3., 1.])) for b in (2, L([2, 3, 1], False))
                           for k in ({}, {"mins": L([-1., None, 3.], False)},
                                     {"mins": L([-1., 2., 0.]), "return1d": True})])
    # one_d
    old = [np.array([0., 1., 2., 4.]), np.array([-1., 0.5, 0.75]), np.array([0., 1.])]
    new = [np.array(q) for q in ([0., 2., 4.], [-3., -2., 0.3, 0.6, 9.], [0.1, 0.2], [-5., 10.],
                                 [0.25, 0.5, 0.75, 1.])]
    cs = []
    for a in old:
        m = len(a) - 1
        d = np.cos(np.arange(m) + 1.)
        ws = [None, np.arange(m) + 0.5, np.arange(m) % 2*1.]
        for b in new:
            for w in ws:
                for sg in (None, abs(d) + 0.1):
                    k = {}
                    if w is not None:
                        k["w"] = A(w)
                    if sg is not None:
                        k["sigma"] = A(sg)
                    cs.append(((A(a), A(d), A(b)), k))
    e("rebin_1d", o.rebin_1d, cs)
    e("rebin_1d integers", o.rebin_1d,
      [((A(np.array([0, 1, 2, 4])), A(np.array([3, 1, 2])), A(b)), {"w": A(np.array([1, 0, 2]))})
       for b in new])
    e("rebin_1d_single_bin_weights", o.rebin_1d_single_bin_weights,
      [((A(a), b[0], b[-1]), {}) for a in old for b in new])
    # pixel
    e("get_arc", p.get_arc, [((1.5,), {"center": L([0.3, -1.]), "steps": s}) for s in (1, 4)])
    e("get_disc", p.get_disc, [((), {"center": L([0.3, -1.]), "steps": s}) for s in (4, 8)])
    e("get_box", p.get_box, [((0., 1., 0., 2., -1., 1.), {"steps": 12, "return_nearest": True,
                                                        "center": L(q)})
                             for q in ([5., 0.5, 0.], [-3., -3., -3.], [0.5, 9., 9.])])
    for ns in (1, 2, 3, 4):
        px = np.arange(12*ns**2)
        ri, rj = p.healpix_pix2ij(px, ns)
        idd, jdd = p.healpix_i2id(ri, ns), p.healpix_j2jd(ri, rj, ns)
        ist, jst = p.healpix_ijd2ijs(idd, jdd, ns)
        e("healpix_pix2ij", p.healpix_pix2ij, [((A(px), ns), {})])
        e("healpix_pix2xy", p.healpix_pix2xy, [((A(px), ns), {})])
        e("healpix_ij2pix", p.healpix_ij2pix, [((A(ri), A(rj), ns), {})])
        e("healpix_ij2xy", p.healpix_ij2xy, [((A(ri), A(rj), ns), {})])
        e("healpix_i2id", p.healpix_i2id, [((A(ri), ns), {})])
        e("healpix_j2jd", p.healpix_j2jd, [((A(ri), A(rj), ns), {})])
        e("healpix_ijd2ijs", p.healpix_ijd2ijs, [((A(idd), A(jdd), ns), {})])
        e("healpix_ijs2ijd", p.healpix_ijs2ijd, [((A(ist), A(jst), ns), {})])
    # polar
    red, ped = np.array([0., 0.5, 2.]), np.linspace(0., TWO, 4)
    e("get_polar_area2d", po.get_polar_area2d, [((A(red), A(ped)), {})])
    e("get_pixarea", po.get_pixarea, [((A(red), A(ped)), {})])
    ar = po.get_polar_area2d(red, ped)
    cs = []
    for f in tuples((0., 1., -2.5), 6)[::7]:
        f = f.reshape(3, 2)
        for w in (None, np.abs(f), np.ones((3, 2))):
            for sg in (None, np.abs(f) + 0.2):
                k = {}
                if w is not None:
                    k["w"] = A(w)
                if sg is not None:
                    k["sigma"] = A(sg)
                cs.append(((A(f), A(ar), 0.1), k))
    e("polar2radial", po.polar2radial, cs)
    e("cumulative_radial", po.cumulative_radial,
      [((A(red), A(f)), k) for f in tuples((0., 1., -2.5), 2)
       for k in ({}, {"sigma": A(np.abs(f) + 0.1)})])
    # randoms
    e("randoms_2d", r.randoms_2d, [((5,), {"mins": L([-1., 2.]), "maxs": L([0., 5.])})])
    e("randoms_3d", r.randoms_3d, [((5,), {"mins": L([-1., 2., 0.]), "maxs": L([0., 5., 1.])})])
    xm = np.array([0.5, 1.5, 2.5, 3.5])
    pdfs = [q for q in tuples((0.5, 1., 3.), 4)][::(3 if t else 7)]
    e("pdf2cdf", r.pdf2cdf, [((A(xm), A(q)), {"return_normpdf": b}) for q in pdfs for b in (True, False)])
    e("pdf2cdf zeros", r.pdf2cdf, [((A(xm), A(q)), {}) for q in tuples((0., 2.), 4)[1:]])
    e("pdf2cdf integers", r.pdf2cdf, [((A(xm), A(np.array(q))), {})
                                      for q in ([1, 2, 3, 1], [0, 1, 0, 5])])
    e("randoms_cdf", r.randoms_cdf, [(tuple(A(z) for z in r.pdf2cdf(xm, q, return_normpdf=False)) + (4,),
                                      {"kind": k}) for q in pdfs[:6] for k in ("linear", "cubic")])
    e("randoms_pdf", r.randoms_pdf, [((A(xm), A(q), 4), {"kind": k}) for q in pdfs[:6]
                                     for k in ("linear", "cubic")])
    for s in (np.arange(6.), np.arange(6), np.array(["a", "b", "c", "d", "e", "f"]),
              np.arange(12.).reshape(6, 2)):
        e("shuffle", r.shuffle, [((A(s),), {})]*3)
        e("random_draw", r.random_draw, [((A(s), k), {}) for k in range(6)])
        for q in ([0.5]*6, [0.2, 1., 0.7, 0.4, 0.9, 1.]):
            e("random_prob_draw", r.random_prob_draw,
              [((A(s), A(q)), k) for k in ({}, {"size": 1}, {"size": 4})])
        e("random_prob_draw zeros", r.random_prob_draw, [((A(s), A([0., 1., 0., 0.5, 2., -1.])), {})])
    wts = tuples((-0.5, 0., 0.4, 1., 2.7), n)
    e("stochastic_integer_weights", r.stochastic_integer_weights, [((A(w),), {}) for w in wts])
    e("stochastic_binary_weights", r.stochastic_binary_weights, [((A(abs(w)),), {}) for w in wts])
    # remap
    for d in (1, 2, 3):
        fn = [rm.grid2grid1D, rm.grid2grid2D, rm.grid2grid3D][d - 1]
        f = np.cos(np.arange(1.*np.prod((3, 2, 2)[:d]))).reshape((3, 2, 2)[:d])
        cs = [((A(f), 1., 2), {}), ((A(f), 1., 2), {"origin": 0.2, "originout": -0.1, "boxsizeout": 2.})]
        if d > 1:
            cs += [((A(f), L([1.]*d), L([2, 3, 1][:d], False)), {}),
                   ((A(f), L([1., 2., 3.][:d]), L([2, 3, 1][:d], False)),
                    {"origin": L([0., 1., 2.][:d]), "originout": L([-0.5, 1.2, 2.][:d]),
                     "boxsizeout": L([2., 1., 1.][:d])})]
        cs += [((A((f*9).astype(q)),) + cs[-1][0][1:], cs[-1][1]) for q in ("i4", "i8", "f4", "u1")]
        e("grid2grid%dD" % d, fn, cs)
    e("is_pos_monotonic", M.utils.is_pos_monotonic, [((A(q),), {}) for q in tuples((0., 1., 2.), 3)])
    return out


def flat(r):
    if isinstance(r, (tuple, list)):
        out = []
        for x in r:
            out += flat(x)
        return out
    return [np.array(r)]


def equal(a, b):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "OUSb" or y.dtype.kind in "OUSb":
            if not np.array_equal(x, y):
                return False
        elif not close(x, y, 1e-9):
            return False
    return True


def defaults(M):
    """The default arguments of everything public."""
    out = {}
    mods = [M.coords, M.grids, M.one_d, M.pixel, M.polar, M.randoms, M.remap, M.utils, M.densegrid,
            M.montecarlo]
    for m in mods:
        for n, v in sorted(vars(m).items()):
            fs = []
            if inspect.isfunction(v):
                fs = [(n, v)]
            elif inspect.isclass(v):
                fs = [(n + "." + k, q) for k, q in sorted(vars(v).items()) if inspect.isfunction(q)]
            for k, q in fs:
                out[m.__name__ + "." + k] = repr((q.__defaults__, q.__kwdefaults__))
    return out


OBJ = {
    "dB2R": ("densegrid", "Box2Ring"), "mB2R": ("montecarlo", "Box2Ring"),
    "dC2S": ("densegrid", "Cube2Shell"), "mC2S": ("montecarlo", "Cube2Shell"),
    "dH2R": ("densegrid", "Heal2Ring"), "mH2R": ("montecarlo", "Heal2Ring"),
    "dH2P": ("densegrid", "Heal2Polar"), "mH2P": ("montecarlo", "Heal2Polar"),
    "dH2O": ("densegrid", "Heal2Ortho"), "pov": ("densegrid", "PointOfView"),
}


def shards(tier):
    out = [{"kind": "fn", "part": k, "of": 12, "tier": tier} for k in range(12)]
    for c in OBJ:
        for v in range(4 if c[1:] in ("B2R", "C2S") else 3):
            out.append({"kind": "obj", "cls": c, "v": v, "depth": 4 if tier == "thorough" else 3})
    return out


def run(sh, rec, M):
    before = defaults(M)
    if sh["kind"] == "fn":
        functions(sh, rec, M)
    else:
        objects(sh, rec, M)
    after = defaults(M)
    for k in before:
        rec.check(before[k] == after.get(k), {"default arguments": k, "shard": sh},
                  "default arguments changed", got=after.get(k), want=before[k])


def functions(sh, rec, M):
    es = entries(M, sh["tier"])
    for i in range(sh["part"], len(es), sh["of"]):
        name, fn, cases = es[i]
        for j, (args, kw) in enumerate(cases):
            ref = None
            for form in FORMS:
                key = {"function": name, "case": j, "arrays": form,
                       "args": [a.v if isinstance(a, (A, L)) else a for a in args],
                       "kw": {k: (a.v if isinstance(a, (A, L)) else a) for k, a in kw.items()}}
                with rec.case(key):
                    w = Watch()
                    a = [w.add(x, form) for x in args]
                    k = {q: w.add(x, form) for q, x in kw.items()}
                    np.random.seed(3)
                    r = rec.call(fn, *a, **k)
                    ok, what = w.intact()
                    rec.check(ok, key, "an argument was changed", now=what)
                    if form == "plain":
                        ref = [x.copy() for x in flat(r)]
                        for x in ref:
                            rec.outcome(x)
                    elif ref is not None:
                        rec.check(equal(r, ref), key, "the kind of array changes the result",
                                  got=r, want=ref)
                    # a result that shares memory must survive the next call
                    keep = [x.copy() for x in flat(r)]
                    np.random.seed(4)
                    rec.call(fn, *a, **k)
                    rec.check(all(np.array_equal(x, y, equal_nan=x.dtype.kind == "f")
                                  for x, y in zip(flat(r), keep)),
                              key, "an earlier result was changed by the next call")


def objects(sh, rec, M):
    c, v = sh["cls"], sh["v"]
    mod, name = OBJ[c]
    K = getattr(getattr(M, mod), name)
    kind = c[1:]
    npix = 12

    def source():
        if kind == "B2R":
            return (3, 4)
        if kind == "C2S":
            return (2, 3, 1)
        return (12,)
    n = int(np.prod(source()))
    f = (np.cos(np.arange(n)*1.7) + 2.).reshape(source())
    if v == 1:
        f = (np.arange(n) - 3).reshape(source())
    wt = (np.arange(n) % 3 + (0.5 if v != 1 else 1)).reshape(source())
    cen = {"B2R": [[0., 0.], [0.7, -0.2], [2., 2.], [9., 9.]], "C2S": [[0.]*3, [0.1, 0.2, -0.4], [2., 1., 0.], [9., 9., 9.]],
           "H2R": [[0., 0.], [1., 2.], [4., PI/2]], "H2P": [[0., PI/2], [1., 2.], [4., 0.3]],
           "H2O": [[0., 0.], [1., 2.], [4., PI/2]]}.get(kind)
    cen = cen and cen[v]
    if v == 0 and kind in ("H2R", "H2O"):
        cen = [0., 0.]

    def setup(o, W, form):
        k = {"center": W.add(L(cen), form)} if cen is not None else {}
        if kind == "B2R":
            rec.call(o.setup_box, -1., 1., 4, -1., 1.5, 3)
            if v != 1:
                k["phi_shift"] = 5.
            if c[0] == "d":
                rec.call(o.setup_polar, 0., 1.4, 2, 3, **k)
            else:
                rec.call(o.setup_polar_lin if v else o.setup_polar_log, 0.1, 1.4, 2, 3, **k)
        elif kind == "C2S":
            rec.call(o.setup_cube, -1., 1., 3, -1., 1.5, 2, 0., 1., 1)
            if c[0] == "d":
                k.update({q: W.add(L([-1, 1], False), form) for q in ("periodicx", "periodicy", "periodicz")}
                         if v else {})
                rec.call(o.setup_polar, 0.2, 1., 2, 1, **k)
            else:
                rec.call(o.setup_polar_lin if v else o.setup_polar_log, 0.2, 1., 2, 1, **k)
        elif kind == "H2R":
            rec.call(o.setup_map, 1)
            rec.call(o.setup_polar_cap, 0., 1., 2, 3, beta_shift=5. if v != 1 else 0., **k)
        elif kind == "H2P":
            rec.call(o.setup_map, 1)
            rec.call(o.setup_box, 1., 2, y_grid=3, alpha=5. if v != 1 else 0., **k)
        elif kind == "H2O":
            rec.call(o.setup_map, 1)
            rec.call(o.setup_box, 2.2, 3, **k)
        else:
            cam, pt = [([0., 0., 0.], [1., 0., 0.]), ([1., -1., 0.5], [0., 2., 3.]),
                       ([0., 0., 0.], [0., 0., -2.])][v]
            rec.call(o.setup, W.add(L(cam), form), W.add(L(pt), form), 1., spin=[0., 1., 5.][v])
        if c[0] == "m":
            np.random.seed(11)
            rec.call(o.get_weights, mc_size=12, verbose=False)

    def use(op, o, W, form):
        if op == "setup":
            return setup(o, W, form)
        if op == "remap":
            return rec.call(o.remap, W.add(A(f), form), verbose=False)
        if op == "weighted":
            return rec.call(o.remap, W.add(A(f), form), w=W.add(A(wt), form), verbose=False)
        if op == "mask":
            return rec.call(o.get_mask_in_bound, verbose=False)
        g = np.cos(np.arange(6.)).reshape(3, 2)
        if v == 1:
            g = np.arange(6).reshape(3, 2) - 2
        if op == "rotate":
            return [rec.call(o.rotate_polar, W.add(A(g), form), s) for s in (0.4, 2.2, 5.)]
        if op == "radial":
            return rec.call(o.polar2radial, W.add(A(g), form))
        if op == "radial errors":
            return rec.call(o.polar2radial, W.add(A(g), form), sigma=W.add(A(abs(g) + 1), form),
                            w=W.add(A(abs(g) + 2), form))
        q = np.array([[0.3, 2., 4., 6.], [0.4, 1.5, 3., 0.2], [1., -2., 0.7, 0.1]])
        if op == "transform":
            if kind == "H2O":
                return rec.call(o.transform, W.add(A(q[0]), form), W.add(A(q[1]), form))
            return rec.call(o.transform, *[W.add(A(x), form) for x in q])
        if op == "reverse":
            return rec.call(o.reverse, W.add(A(q[0] - 2.), form), W.add(A(q[1] - 1.), form),
                            W.add(A(abs(q[2]) + 1.), form))
        raise ValueError(op)
    ops = ["setup"]
    if c == "pov":
        ops += ["transform", "reverse"]
    else:
        ops += ["remap"] + (["weighted"] if c != "dC2S" else [])
        if kind in ("B2R", "H2R"):
            ops += ["rotate", "radial", "radial errors"]
        if kind == "B2R":
            ops += ["mask"]
        if kind == "H2O":
            ops += ["transform"]
    single = {}
    for form in FORMS:
        for seq in itertools.product(ops, repeat=sh["depth"]):
            key = {"class": c, "variant": v, "arrays": form, "uses": seq}
            with rec.case(key):
                o = K()
                W = Watch()
                setup(o, W, form)
                results = []
                for op in seq:
                    r = use(op, o, W, form)
                    ok, what = W.intact()
                    rec.check(ok, key, "an argument was changed (by %s)" % op, now=what)
                    if op in ("setup", "mask"):
                        continue
                    cp = [x.copy() for x in flat(r)]
                    results.append((r, cp))
                    if op not in single:
                        single[op] = cp
                        for x in cp:
                            rec.outcome(x)
                    rec.check(equal(cp, single[op]), key, "the kind of array or an earlier use "
                              "changes the result of %s" % op, got=cp, want=single[op])
                rec.check(all(equal(r, cp) for r, cp in results), key, "an earlier result was changed")
