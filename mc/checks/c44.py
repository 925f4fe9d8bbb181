"""C44: a number is the same number whatever its type."""
import itertools

import numpy as np

SRC = True
MAPS = True
PI = np.pi
SCALAR = ["int", "int64", "int32", "int16", "float", "float64", "float32"]
LOW = ("float32", "int16")
ARRAY = ["int64", "int32", "int16", "float32", ">f8", ">i4", "longdouble", "strided", "fortran", "readonly"]
BOUNDS = {
    "quick": "209 calls of all public functions and set-ups of all remappers (then remapped): every argument alone, every pair "
             "of arguments and all arguments together given as Python integers or reals, NumPy integers of 16 to 64 bits, "
             "single, double or byte-swapped reals, strided, Fortran-ordered or read-only arrays; lists "
             "also as tuples and arrays; the same with all other values, or all values, shifted off the integers",
    "thorough": "additionally every pair with different types",
}
ASSUMPTIONS = ["only values that the type holds exactly are given; results for single precision or 16-bit numbers may be rounded to "
               "single precision; sums and products of different arguments fit into the type"]


def shards(tier):
    return [{"part": i, "of": 24, "t": tier} for i in range(24)]


class S:
    """A scalar."""

    def __init__(self, v):
        self.v = v


class V:
    """An array."""

    def __init__(self, v):
        self.v = np.array(v, dtype=float)


class Ls:
    """A list of numbers (integers if it counts something)."""

    def __init__(self, v, count=False):
        self.v, self.count = list(v), count


class N(S):
    """A count."""


def fits(v, t):
    v = np.asarray(v, dtype=float)
    if t in ("float", "strided", "fortran", "readonly"):
        return True
    d = np.dtype({"int": "int64"}.get(t, t))
    if d.kind in "iu":
        i = np.iinfo(d)
        return bool(np.all(v == np.floor(v)) and np.all(v >= i.min) and np.all(v <= i.max))
    with np.errstate(all="ignore"):
        return bool(np.all(v.astype(d).astype(float) == v))


def forms(a):
    """(name, single precision?, value) of every form of one argument."""
    if isinstance(a, S):
        for t in SCALAR:
            if isinstance(a, N) and t.startswith("float"):
                continue
            if fits(a.v, t):
                v = int(a.v) if t == "int" else float(a.v) if t == "float" else np.dtype(t).type(a.v)
                yield t, t in LOW, v
    elif isinstance(a, Ls):
        yield "tuple", False, tuple(a.v)
        for t in SCALAR:
            if a.count and t.startswith("float"):
                continue
            if t not in ("int", "float") and fits(a.v, t):
                yield "array " + t, t in LOW, np.array(a.v, dtype=t)
                yield "list " + t, t in LOW, [np.dtype(t).type(x) for x in a.v]
    elif isinstance(a, V):
        for t in ARRAY:
            if not fits(a.v, t):
                continue
            if t == "strided":
                b = np.full(tuple(2*n for n in a.v.shape), 77.)
                s = (slice(None, None, 2),)*a.v.ndim
                b[s] = a.v
                v = b[s]
            elif t == "fortran":
                v = np.asfortranarray(a.v)
            elif t == "readonly":
                v = a.v.copy()
                v.setflags(write=False)
            else:
                v = a.v.astype(t)
            yield t, t in LOW, v


def plain(a):
    if isinstance(a, N):
        return int(a.v)
    if isinstance(a, S):
        return float(a.v)
    if isinstance(a, Ls):
        return list(a.v)
    return a.v.copy() if isinstance(a, V) else a


def shifted(a):
    """Values between the integers, so that an argument in integers meets others that are not."""
    if isinstance(a, N) or isinstance(a, Int) or isinstance(a, Ls) and a.count:
        return a
    if isinstance(a, S):
        return S(a.v + 0.125)
    if isinstance(a, Ls):
        return Ls([v + 0.125/(i + 1 - i//2) for i, v in enumerate(a.v)])
    if isinstance(a, V):
        return V(a.v + 0.125)
    return a


def entries(M):
    c, g, o, p, po, r, rm = M.coords, M.grids, M.one_d, M.pixel, M.polar, M.randoms, M.remap
    out = []

    def e(name, fn, *args, **kw):
        out.append((name, fn, args, kw))
    x, y, z = V([1, 2, 5, 3, 0]), V([4, 1, 2, 7, 3]), V([2, 3, 1, 5, 6])
    ph, th = V([0, 1, 3, 5, 6]), V([0, 1, 2, 3, 1])
    for q, k in (("", 3), (" scalar", None)):
        pick = (lambda a: a) if k else (lambda a: S(float(a.v[1])))
        e("cart2polar" + q, c.cart2polar, pick(x), pick(y), center=Ls([7, 2]))
        e("polar2cart" + q, c.polar2cart, pick(x), pick(ph), center=Ls([3, 2]))
        e("cart2sphere" + q, c.cart2sphere, pick(x), pick(y), pick(z), center=Ls([7, 2, 3]))
        e("sphere2cart" + q, c.sphere2cart, pick(x), pick(ph), pick(th), center=Ls([1, 2, 3]))
        e("ortho2cart" + q, c.ortho2cart, pick(x), pick(y), r=S(6), fill_value=S(3))
        e("healpix_ang2xy" + q, c.healpix_ang2xy, pick(ph), pick(th))
        e("sphere2lonlat" + q, c.sphere2lonlat, pick(th))
        e("lonlat2sphere" + q, c.lonlat2sphere, pick(V([0, 1, -1, 1, 0])))
        e("rotate_polar" + q, c.rotate_polar, pick(ph), S(4))
        for s in (-3, 2, 5):
            e("usphere_phi_shift" + q, c.usphere_phi_shift, pick(ph), S(s))
        e("usphere_rotate" + q, c.usphere_rotate, pick(ph), pick(V([1, 1, 2, 2, 1])), S(2), S(1), phi_start=S(5), theta_start=S(2))
        for a, b in ((5, 2), (2, 5)):
            e("usphere_shift" + q, c.usphere_shift, pick(ph), pick(V([1, 1, 2, 2, 1])), S(a), S(1), S(b), S(3))
        e("usphere_spin" + q, c.usphere_spin, pick(ph), pick(V([1, 1, 2, 2, 1])), S(1), S(2), S(5))
    e("healpix_xy2ang", c.healpix_xy2ang, V([0, 1, 2, 3, 4]), V([0, 1, -1, 0, 1]))
    e("healpix_xy2ang scalar", c.healpix_xy2ang, S(1), S(1))
    e("usphere_area", c.usphere_area, S(1), S(4), S(1), S(2))
    f4 = V([[1, 9], [4, 2], [6, 5], [3, 8]])
    e("rotate_polar_grid", c.rotate_polar_grid, V([0, 1, 2, 3, 4]), f4, S(2))
    e("rotate_polar_grid part", c.rotate_polar_grid, V([0, 1, 2, 3, 4]), f4, S(1.25))
    for m in (None, S(-3), S(2)):
        k = {} if m is None else {"xmin": m}
        e("get_xedges", g.get_xedges, S(7), N(4), **k)
        e("grid1d", g.grid1d, S(7), N(4), return_edges=True, **k)
    e("xedges2mid", g.xedges2mid, V([1, 3, 5, 7]))
    e("xmid2edges", g.xmid2edges, V([1, 3, 5, 7]))
    e("grid2d", g.grid2d, S(5), N(3), return1d=True)
    e("grid2d lists", g.grid2d, Ls([5, 2]), Ls([3, 4], True), mins=Ls([-3, 2]), return1d=True)
    e("grid3d", g.grid3d, S(5), N(3), return1d=True)
    e("grid3d lists", g.grid3d, Ls([5, 2, 3]), Ls([3, 4, 2], True), mins=Ls([-3, 2, 1]), return1d=True)
    e("polargrid", g.polargrid, N(3), N(4), rmin=S(1), rmax=S(5), phimin=S(1), phimax=S(6), return1d=True)
    e("polarEA_grid", g.polarEA_grid, N(3), rmax=S(5), base_nphi=N(3))
    e("polarEA_area", g.polarEA_area, N(3), rmax=S(5), base_nphi=N(3))
    e("polarEA_npix", g.polarEA_npix, N(3), base_nphi=N(3))
    for new in ([0, 2, 3, 8], [1.5, 1.75, 2.5, 6.25], [3, 4], [5, 6], [0, 100]):
        e("rebin_1d", o.rebin_1d, V([0, 1, 2, 4, 7]), V([3, 5, 2, 9]), V(new), w=V([1, 2, 3, 1]), sigma=V([1, 3, 2, 1]))
        e("rebin_1d plain", o.rebin_1d, V([0, 1, 2, 4, 7]), V([3, 5, 2, 9]), V(new), sigma=V([1, 3, 2, 1]))
        e("single_bin_weights", o.rebin_1d_single_bin_weights, V([0, 1, 2, 4, 7]), S(new[0]), S(new[1]))
    e("get_square", p.get_square, S(1), S(6), S(2), S(7), steps=N(24))
    e("get_arc", p.get_arc, S(5), phimin=S(1), phimax=S(6), center=Ls([1, 2]), steps=N(7))
    e("get_disc", p.get_disc, rmin=S(1), rmax=S(4), phimin=S(1), phimax=S(3), center=Ls([1, 2]), steps=N(24))
    e("get_box", p.get_box, S(0), S(1), S(2), S(5), S(1), S(3), steps=N(24), return_nearest=True, center=Ls([9, 4, 2]))
    for ns in (1, 2, 3):
        px = np.arange(12*ns*ns)
        ri, rj = p.healpix_pix2ij(px, ns)
        e("healpix_pix2ij", p.healpix_pix2ij, Int(px), N(ns))
        e("healpix_pix2xy", p.healpix_pix2xy, Int(px), N(ns))
        e("healpix_ij2pix", p.healpix_ij2pix, Int(ri), Int(rj), N(ns))
        e("healpix_ij2xy", p.healpix_ij2xy, Int(ri), Int(rj), N(ns))
        for i in (0, 6*ns*ns - 1, 12*ns*ns - 1):
            e("healpix_pix2ij scalar", p.healpix_pix2ij, N(i), N(ns))
            e("healpix_pix2xy scalar", p.healpix_pix2xy, N(i), N(ns))
            e("healpix_ij2pix scalar", p.healpix_ij2pix, N(int(ri[i])), N(int(rj[i])), N(ns))
            if ns > 1:
                q = p.healpix_ijd2ijs(p.healpix_i2id(ri, ns), p.healpix_j2jd(ri, rj, ns), ns)
                e("healpix_ijs_neighbours", p.healpix_ijs_neighbours, N(int(q[0][i])), N(int(q[1][i])), N(ns))
            e("healpix_boundary", p.healpix_boundary, N(i), N(ns), steps=N(8))
    e("get_polar_area2d", po.get_polar_area2d, V([0, 2, 3, 7]), V([0, 1, 2, 3]))
    e("get_pixarea", po.get_pixarea, V([0, 2, 4]), V([1, 4, 7]))
    e("polar2radial", po.polar2radial, V([[3, 5], [2, 9], [1, 4]]), V([[2, 3], [2, 3], [2, 3]]), S(2),
      sigma=V([[1, 2], [3, 1], [2, 2]]), w=V([[1, 2], [3, 1], [2, 2]]))
    e("polar2radial plain", po.polar2radial, V([[3, 5], [2, 9], [1, 4]]), V([[2, 3], [2, 3], [2, 3]]), S(2),
      sigma=V([[1, 2], [3, 1], [2, 2]]))
    e("cumulative_radial", po.cumulative_radial, V([0, 2, 3, 7]), V([3, 5, 2]), sigma=V([1, 2, 3]))
    e("randoms_1d", r.randoms_1d, N(4), xmin=S(-3), xmax=S(5))
    e("randoms_2d", r.randoms_2d, N(4), mins=Ls([-3, 1]), maxs=Ls([5, 6]))
    e("randoms_3d", r.randoms_3d, N(4), mins=Ls([-3, 1, 0]), maxs=Ls([5, 6, 9]))
    e("randoms_polar", r.randoms_polar, N(4), r_min=S(1), r_max=S(5), phi_min=S(1), phi_max=S(6))
    e("randoms_usphere", r.randoms_usphere, N(4), phi_min=S(1), phi_max=S(6), theta_min=S(1), theta_max=S(3))
    e("randoms_sphere_r", r.randoms_sphere_r, N(4), r_min=S(1), r_max=S(5))
    e("randoms_sphere", r.randoms_sphere, N(4), r_min=S(1), r_max=S(5), phi_min=S(1), phi_max=S(6), theta_min=S(1),
      theta_max=S(3))
    e("randoms_healpix_pixel", r.randoms_healpix_pixel, N(4), N(7), N(2))
    e("pdf2cdf", r.pdf2cdf, V([1, 3, 5, 7]), V([2, 1, 4, 3]))
    e("randoms_pdf", r.randoms_pdf, V([1, 3, 5, 7]), V([2, 1, 4, 3]), N(4), kind="linear")
    e("randoms_cdf", r.randoms_cdf, V([1, 3, 5, 7]), V([0, 0.25, 0.75, 1]), N(4), kind="linear")
    e("shuffle", r.shuffle, V([1, 3, 5, 7]))
    e("random_draw", r.random_draw, V([1, 3, 5, 7]), N(2))
    e("random_prob_draw", r.random_prob_draw, V([1, 3, 5, 7]), V([1, 1, 0, 1]))
    e("random_prob_draw sized", r.random_prob_draw, V([1, 3, 5, 7]), V([1, 0.5, 0.25, 1]), size=N(2))
    e("stochastic_integer_weights", r.stochastic_integer_weights, V([1, 3, 0, 7]))
    e("stochastic_integer_weights part", r.stochastic_integer_weights, V([1.25, 3.5, 0, 7.75]))
    e("stochastic_binary_weights", r.stochastic_binary_weights, V([1, 3, 0, 7]))
    e("stochastic_binary_weights part", r.stochastic_binary_weights, V([1.25, 0.5, 0, 0.75]))
    for w in (0, 3, 0.5, 2.25):
        e("stochastic_integer_weights scalar", r.stochastic_integer_weights, S(w))
        e("stochastic_binary_weights scalar", r.stochastic_binary_weights, S(w))
    e("grid2grid1D", rm.grid2grid1D, V([3, 1, 4, 1, 5]), S(5), N(4), origin=S(2), originout=S(1), boxsizeout=S(7))
    e("grid2grid2D", rm.grid2grid2D, V([[3, 1, 4], [1, 5, 9]]), S(5), N(4), origin=S(2), originout=S(1), boxsizeout=S(7))
    e("grid2grid2D lists", rm.grid2grid2D, V([[3, 1, 4], [1, 5, 9]]), Ls([5, 3]), Ls([4, 3], True), origin=Ls([2, 1]),
      originout=Ls([1, 0]), boxsizeout=Ls([7, 3]))
    e("grid2grid3D", rm.grid2grid3D, V([[[3, 1], [4, 1]], [[5, 9], [2, 6]]]), S(5), N(3), origin=S(2), originout=S(1),
      boxsizeout=S(7))
    e("grid2grid3D lists", rm.grid2grid3D, V([[[3, 1], [4, 1]], [[5, 9], [2, 6]]]), Ls([5, 3, 2]), Ls([3, 2, 1], True),
      origin=Ls([2, 1, 0]), originout=Ls([1, 0, 0]), boxsizeout=Ls([7, 3, 2]))
    big, far = V([300, -200, 0, 250, 30000]), V([-250, 300, 32000, 0, 181])
    for q in ("", " scalar"):
        pick = (lambda a: a) if not q else (lambda a: S(float(a.v[1])))
        e("cart2polar large" + q, c.cart2polar, pick(big), pick(far), center=Ls([-300, 182]))
        e("polar2cart large" + q, c.polar2cart, pick(V([300, 32000, 0, 250, 181])), pick(ph), center=Ls([3000, -2000]))
        e("cart2sphere large" + q, c.cart2sphere, pick(big), pick(far), pick(big), center=Ls([-300, 182, 700]))
        e("sphere2cart large" + q, c.sphere2cart, pick(V([300, 32000, 0, 250, 181])), pick(ph), pick(th), center=Ls([1000, 200, -3000]))
        e("ortho2cart large" + q, c.ortho2cart, pick(V([300, -200, 0, 250, 30000])), pick(V([-250, 300, 320, 0, 181])), r=S(500))
    e("grid1d large", g.grid1d, S(9000), N(3), xmin=S(20000), return_edges=True)
    e("polarEA_area large", g.polarEA_area, N(30000), rmax=S(30000), base_nphi=N(30000))
    e("polarEA_area large", g.polarEA_area, N(70000), rmax=S(300), base_nphi=N(30000))
    e("get_polar_area2d large", po.get_polar_area2d, V([0, 200, 300, 30000]), V([0, 1, 2, 3]))
    e("get_pixarea large", po.get_pixarea, V([-30000, -29900, -29800]), V([1000, 1300, 1600]))
    e("cumulative_radial large", po.cumulative_radial, V([0, 200, 300, 30000]), V([3000, 5000, 2000]), sigma=V([1000, 2000, 30000]))
    e("randoms_polar large", r.randoms_polar, N(4), r_min=S(1000), r_max=S(30000))
    e("randoms_sphere large", r.randoms_sphere, N(4), r_min=S(1000), r_max=S(30000))
    e("rebin_1d large", o.rebin_1d, V([-30000, 100, 200, 4000, 32000]), V([3000, 5000, 20000, 9000]), V([-20000, 2000, 30000]),
      sigma=V([1000, 30000, 2000, 1000]))
    e("get_arc large", p.get_arc, S(30000), center=Ls([10000, 20000]))
    e("randoms_1d large", r.randoms_1d, N(4), xmin=S(-10000), xmax=S(20000))
    e("polar2radial large", po.polar2radial, V([[3000, 500], [20000, 9000], [1000, 4]]), V([[200, 300], [200, 300], [200, 300]]),
      S(20000), sigma=V([[1000, 200], [30000, 100], [200, 2000]]))
    out += objects(M)
    return out


class Int(V):
    """Indices: integers in every form (the index functions multiply them by the size of the map)."""

    def __init__(self, v):
        V.__init__(self, v)
        self.v = np.array(v, dtype=int)


def objects(M):
    D, C = M.densegrid, M.montecarlo
    out = []
    box = (S(-9), S(11), N(7), S(-7), S(9), N(5))
    cube = box + (S(-5), S(8), N(3))
    fb = V((np.arange(35)*7 % 23).reshape(5, 7))
    fc = V((np.arange(105)*7 % 23).reshape(5, 7, 3))
    wb = V((np.arange(35)*5 % 4 + 1).reshape(5, 7))
    fm, wm = V(np.arange(48)*7 % 23), V(np.arange(48)*5 % 4 + 1)

    def e(name, fn, *args, **kw):
        out.append((name, fn, args, kw))

    def b2r(cls, how, mc):
        def fn(*a, f=None, w=None, sg=None, wr=None, turn=None, **kw):
            o = cls()
            o.setup_box(*a[:6])
            getattr(o, how)(*a[6:], **kw)
            if mc:
                o.get_weights(mc_size=8, verbose=False)
            r = o.remap(f, w=w, verbose=False)
            out = r, o.polar2radial(r), o.polar2radial(r, sigma=sg, w=wr), o.mask_in_bound
            return out + ((o.rotate_polar(r, turn),) if turn is not None else ())
        return fn

    def c2s(cls, how, mc):
        def fn(*a, f=None, **kw):
            o = cls()
            o.setup_cube(*a[:9])
            getattr(o, how)(*a[9:], **kw)
            if mc:
                o.get_weights(mc_size=8, verbose=False)
            return (o.remap(f, verbose=False),)
        return fn

    def heal(cls, how, mc):
        def fn(ns, *a, f=None, w=None, sg=None, wr=None, turn=None, **kw):
            o = cls()
            o.setup_map(ns)
            getattr(o, how)(*a, **kw)
            if mc:
                o.get_weights(mc_size=8, verbose=False)
            r = o.remap(f, w=w, verbose=False)
            if sg is None:
                return (r,)
            return r, o.polar2radial(r), o.polar2radial(r, sigma=sg, w=wr), o.rotate_polar(r, turn)
        return fn

    def pov(*a, x=None, y=None, z=None, **kw):
        o = D.PointOfView()
        o.setup(*a, **kw)
        q = o.transform(x, y, z)
        return tuple(q) + tuple(o.reverse(*q))
    pol = (S(1), S(5), N(2), N(3))
    ring = {"sg": V([[1, 2], [3, 1], [2, 2]]), "wr": V([[2, 1], [1, 3], [4, 1]])}
    full = dict(ring, turn=S(2))
    e("dense Box2Ring", b2r(D.Box2Ring, "setup_polar", False), *(box + pol), f=fb, w=wb, pmin=S(1), pmax=S(6),
      center=Ls([1, 2]), phi_shift=S(2), rebin_r=N(3), rebin_p=N(2), **ring)
    e("dense Box2Ring round", b2r(D.Box2Ring, "setup_polar", False), *(box + pol), f=fb, w=wb, center=Ls([1, 2]),
      phi_shift=S(2), **full)
    e("mc Box2Ring lin", b2r(C.Box2Ring, "setup_polar_lin", True), *(box + pol), f=fb, w=wb, pmin=S(1), pmax=S(6),
      center=Ls([1, 2]), phi_shift=S(2), **ring)
    e("mc Box2Ring log", b2r(C.Box2Ring, "setup_polar_log", True), *(box + pol), f=fb, w=wb, pmin=S(1), pmax=S(6),
      center=Ls([1, 2]), phi_shift=S(2), **ring)
    e("mc Box2Ring lin round", b2r(C.Box2Ring, "setup_polar_lin", True), *(box + pol), f=fb, w=wb, center=Ls([1, 2]), **full)
    she = (S(1), S(4), N(2), N(1))
    e("dense Cube2Shell", c2s(D.Cube2Shell, "setup_polar", False), *(cube + she), f=fc, center=Ls([1, 2, 1]), rebin_r=N(3),
      rebin_shell=N(2))
    e("dense Cube2Shell periodic", c2s(D.Cube2Shell, "setup_polar", False), *(cube + (S(3), S(9), N(2), N(1))), f=fc,
      center=Ls([1, 2, 1]), periodicx=Ls([-1, 1], True), periodicy=Ls([-1, 1], True), periodicz=Ls([-1, 1], True))
    e("mc Cube2Shell lin", c2s(C.Cube2Shell, "setup_polar_lin", True), *(cube + she), f=fc, center=Ls([1, 2, 1]))
    e("mc Cube2Shell log", c2s(C.Cube2Shell, "setup_polar_log", True), *(cube + she), f=fc, center=Ls([1, 2, 1]))
    for n, m in (("dense", D), ("mc", C)):
        k = {"rebin_alpha": N(3), "rebin_beta": N(2)} if m is D else {}
        e(n + " Heal2Ring", heal(m.Heal2Ring, "setup_polar_cap", m is C), N(2), S(0), S(1), N(2), N(3), f=fm, w=wm,
          center=Ls([1, 2]), beta_min=S(1), beta_max=S(5), beta_shift=S(2), **k)
        e(n + " Heal2Ring round", heal(m.Heal2Ring, "setup_polar_cap", m is C), N(2), S(0), S(1), N(2), N(3), f=fm, w=wm,
          center=Ls([1, 2]), **dict(full, **k))
        e(n + " Heal2Polar", heal(m.Heal2Polar, "setup_box", m is C), N(2), S(2), N(3), f=fm, w=wm, center=Ls([1, 2]),
          alpha=S(4), y_length=S(1), y_grid=N(2), **({"rebin_x": N(3), "rebin_y": N(2)} if m is D else {}))
    e("Heal2Ortho", heal(D.Heal2Ortho, "setup_box", False), N(2), S(3), N(3), f=fm, w=wm, center=Ls([1, 2]), y_length=S(2),
      y_grid=N(2), rebin_x=N(3), rebin_y=N(2), radius=S(2))
    e("PointOfView", pov, Ls([1, 2, 3]), Ls([4, 1, 5]), S(2), spin=S(1), x=V([3, 9, 4]), y=V([1, 0, 7]), z=V([2, 8, 3]))
    return out


def flat(r):
    if isinstance(r, (tuple, list)):
        return [q for x in r for q in flat(x)]
    return [np.asarray(r)]


def run(sh, rec, M):
    es = entries(M)
    for i in range(sh["part"], len(es), sh["of"]):
        name, fn, args, kw = es[i]
        slots = list(range(len(args))) + sorted(kw)
        get = {s: (args[s] if isinstance(s, int) else kw[s]) for s in slots}
        key = {"call": name, "entry": i}
        alts = {s: list(forms(a)) for s, a in get.items() if isinstance(a, (S, V, Ls))}
        sets = [{s: a} for s in alts for a in alts[s]]
        kinds = SCALAR + ["strided", "fortran", "readonly", ">f8", ">i4", "longdouble", "tuple"] + \
            ["array " + t for t in SCALAR] + ["list " + t for t in SCALAR]

        def like(s, t):
            """The form of the argument closest to the kind t."""
            for a in alts[s]:
                if a[0] == t or a[0] == t.split(" ")[-1] or a[0] == "array " + t:
                    return a
            return None
        for t in kinds:
            have = [s for s in alts if like(s, t)]
            subs = list(itertools.combinations(have, 2)) + [tuple(have)]
            sets += [{s: like(s, t) for s in q} for q in subs if len(q) > 1]
        if sh["t"] == "thorough":
            for s, q in itertools.combinations(alts, 2):
                sets += [{s: a, q: b} for a in alts[s] for b in alts[q] if a[0] != b[0]]
        compare(rec, fn, slots, get, sets, key, False)
        for s in alts:
            if len(get) > 1 and any(shifted(get[q]) is not get[q] for q in alts if q != s):
                between = {q: a if q == s else shifted(a) for q, a in get.items()}
                compare(rec, fn, slots, between, [{s: a} for a in alts[s]], dict(key, between=str(s)), True)
        if alts and any(shifted(a) is not a for a in get.values()):
            between = {q: shifted(a) for q, a in get.items()}
            alts = {s: list(forms(a)) for s, a in between.items() if isinstance(a, (S, V, Ls))}
            sets = [{s: a} for s in alts for a in alts[s]]
            compare(rec, fn, slots, between, sets, dict(key, between="all"), True)


def compare(rec, fn, slots, get, sets, key, refusable):
    def call(change):
        v = {s: change[s][2] if s in change else plain(get[s]) for s in slots}
        np.random.seed(7)
        with np.errstate(all="ignore"):
            return flat(rec.call(fn, *[v[s] for s in slots if isinstance(s, int)],
                                 **{s: v[s] for s in slots if not isinstance(s, int)}))
    if refusable:
        try:
            call({})
        except Exception:
            rec.count("between values refused")
            return
    want = None
    with rec.case(key):
        want = [x.copy() for x in call({})]
        rec.outcome(*want)
    if want is None:
        return
    seen = set()
    for change in sets:
        ident = tuple(sorted((str(s), a[0]) for s, a in change.items()))
        if ident in seen:
            continue
        seen.add(ident)
        k = dict(key, types=dict(ident))
        with rec.case(k):
            got = call(change)
            single = any(a[1] for a in change.values())
            tol = 1e-4 if single else 1e-9
            ok = len(got) == len(want)
            for x, y in zip(got, want):
                ok = ok and x.shape == y.shape and x.dtype.kind in "fiu" and y.dtype.kind in "fiu"
                if ok:
                    x, y = x.astype(float), y.astype(float)
                    ok = np.array_equal(np.isnan(x), np.isnan(y)) and \
                        bool(np.all((x == y) | np.isnan(y) | (np.abs(x - y) <= tol*(1. + np.abs(y)))))
            rec.check(bool(ok), k, "the type of a number changes the result", got=got, want=want)
