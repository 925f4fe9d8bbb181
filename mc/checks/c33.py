"""C33: random results follow from the seed of NumPy's global generator."""
import itertools

import numpy as np

SRC = False
MAPS = True
PI, TWO = np.pi, 2*np.pi
BOUNDS = {
    "quick": "17 random functions and 4 Monte Carlo classes; every history of up to 2 calls "
             "(random, deterministic, other objects) before the seed, for every call after it; "
             "every ordered pair of calls after a seed, twice; two seeds; every deterministic call; 16 functions x 16 sizes from 50 to 300000",
    "thorough": "histories of up to 3 calls (the second and third out of a third of the calls)",
}
ASSUMPTIONS = ["results of 60 or more doubles coincide by chance with probability zero"]


def random_calls(M):
    r = M.randoms
    n = 60
    items = np.arange(n)
    xm = np.linspace(0.05, 0.95, 10)
    pdf = 1. + np.arange(10) % 3
    x, cdf = r.pdf2cdf(xm, pdf, return_normpdf=False)
    out = [
        ("randoms_1d", lambda: r.randoms_1d(n)),
        ("randoms_2d", lambda: r.randoms_2d(n)),
        ("randoms_3d", lambda: r.randoms_3d(n)),
        ("randoms_polar", lambda: r.randoms_polar(n, r_min=0.2)),
        ("randoms_sphere_r", lambda: r.randoms_sphere_r(n)),
        ("randoms_sphere", lambda: r.randoms_sphere(n, r_min=0.1)),
        ("randoms_usphere", lambda: r.randoms_usphere(n)),
        ("randoms_usphere part", lambda: r.randoms_usphere(n, 1., 2., 0.5, 1.)),
        ("randoms_healpix_pixel", lambda: r.randoms_healpix_pixel(n, 5, 2)),
        ("randoms_healpix_pixel cap", lambda: r.randoms_healpix_pixel(n, 0, 1)),
        ("randoms_cdf", lambda: r.randoms_cdf(x, cdf, n, kind="linear")),
        ("randoms_pdf", lambda: r.randoms_pdf(xm, pdf, n)),
        ("shuffle", lambda: r.shuffle(items)),
        ("random_draw", lambda: r.random_draw(items, n - 5)),
        ("random_prob_draw", lambda: r.random_prob_draw(items, np.full(n, 0.6))),
        ("random_prob_draw size", lambda: r.random_prob_draw(items, np.full(n, 0.6), size=n - 5)),
        ("stochastic_integer_weights", lambda: r.stochastic_integer_weights(items*0.37 + 0.5*(items % 2))),
        ("stochastic_binary_weights", lambda: r.stochastic_binary_weights(np.full(n, 0.43))),
    ]

    def mc(name, build, shape):
        objs = {}

        def weights():
            if name not in objs:
                objs[name] = build()
            o = objs[name]
            o.get_weights(mc_size=80, verbose=False)
            m = int(np.prod(shape))
            return o.remap((np.arange(m)**1.5).reshape(shape), verbose=False)
        out.append((name, weights))

    def b2r():
        o = M.montecarlo.Box2Ring()
        o.setup_box(-1., 1., 7, -1., 1., 9)
        o.setup_polar_lin(0.2, 0.9, 2, 3, phi_shift=0.3)
        return o

    def c2s():
        o = M.montecarlo.Cube2Shell()
        o.setup_cube(-1., 1., 5, -1., 1., 4, -1., 1., 6)
        o.setup_polar_lin(0.2, 0.9, 1, 1)
        return o

    def h2r():
        o = M.montecarlo.Heal2Ring()
        o.setup_map(8)
        o.setup_polar_cap(0.1, 0.9, 2, 3, center=[1., 1.])
        return o

    def h2p():
        o = M.montecarlo.Heal2Polar()
        o.setup_map(8)
        o.setup_box(1., 2, center=[1., 1.], alpha=0.5)
        return o
    mc("mc Box2Ring", b2r, (9, 7))
    mc("mc Cube2Shell", c2s, (4, 5, 6))
    mc("mc Heal2Ring", h2r, (768,))
    mc("mc Heal2Polar", h2p, (768,))
    return out, (b2r, c2s, h2r, h2p)


def fixed_calls(M, builders):
    c, g, p = M.coords, M.grids, M.pixel
    a = np.array([0.5, 1., 2.])
    out = [
        ("cart2polar", lambda: c.cart2polar(a, a)), ("usphere_spin", lambda: c.usphere_spin(a, a, 1., 1., 0.5)),
        ("usphere_rotate", lambda: c.usphere_rotate(a, a, 1., 1.)),
        ("healpix_ang2xy", lambda: c.healpix_ang2xy(a, a)),
        ("grid3d", lambda: g.grid3d(1., 3)), ("polarEA_grid", lambda: g.polarEA_grid(3)),
        ("healpix_boundary", lambda: p.healpix_boundary(3, 2)),
        ("healpix_pix2xy", lambda: p.healpix_pix2xy(np.arange(12), 1)),
        ("rebin_1d", lambda: M.one_d.rebin_1d(np.arange(4.), a, np.array([0.5, 2.5]), sigma=a)),
        ("polar2radial", lambda: M.polar.polar2radial(np.ones((2, 3)), np.ones((2, 3)), 1.)),
        ("pdf2cdf", lambda: M.randoms.pdf2cdf(a, a)),
    ]

    def dense(name, build):
        out.append(("dense " + name, build))

    def db2r():
        o = M.densegrid.Box2Ring()
        o.setup_box(-1., 1., 3, -1., 1., 3)
        o.setup_polar(0.2, 1.2, 2, 3)
        o.remap(np.ones((3, 3)), verbose=False)
        return o.polar2radial(np.ones((3, 2)))

    def dc2s():
        o = M.densegrid.Cube2Shell()
        o.setup_cube(-1., 1., 2, -1., 1., 2, -1., 1., 2)
        o.setup_polar(0.2, 0.9, 1, 1)
        return o.remap(np.ones((2, 2, 2)), verbose=False)

    def dheal():
        for n in ("Heal2Ring", "Heal2Polar", "Heal2Ortho"):
            o = getattr(M.densegrid, n)()
            o.setup_map(1)
            if n == "Heal2Ring":
                o.setup_polar_cap(0., 1., 1, 2)
            else:
                o.setup_box(1., 2)
            o.remap(np.ones(12), verbose=False)

    def pov():
        o = M.densegrid.PointOfView()
        o.setup([0., 0., 0.], [1., 1., 0.], 1., spin=0.5)
        return o.reverse(*o.transform(a, a + 1., a - 1.))
    dense("Box2Ring", db2r)
    dense("Cube2Shell", dc2s)
    dense("HEALPix", dheal)
    dense("view", pov)
    for b, shp in zip(builders, ((9, 7), (4, 5, 6), (768,), (768,))):
        o = b()
        st = np.random.get_state()
        o.get_weights(mc_size=5, verbose=False)
        np.random.set_state(st)
        nm = type(o).__name__
        f = np.ones(shp)
        out.append(("remap mc " + nm, lambda o=o, f=f: o.remap(f, w=f, verbose=False)))
        out.append(("set-up mc " + nm, b))
        if hasattr(o, "polar2radial"):
            q = np.ones((3, 2))
            out.append(("radial mc " + nm, lambda o=o, q=q: (o.polar2radial(q), o.rotate_polar(q, 1.))))
    return out


def flat(r):
    return [np.array(x, dtype=float) for x in (r if isinstance(r, (tuple, list)) else [r])]


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
                                    for x, y in zip(a, b))


def sized(M, n):
    """Every random function asked for n values."""
    r = M.randoms
    items = np.arange(n)
    pr = 0.05 + 0.9*((np.arange(n)*0.37) % 1.)
    xm = np.linspace(0.05, 0.95, 10)
    x, cdf = r.pdf2cdf(xm, np.ones(10), return_normpdf=False)
    return [("randoms_1d", lambda: r.randoms_1d(n)), ("randoms_2d", lambda: r.randoms_2d(n)),
            ("randoms_3d", lambda: r.randoms_3d(n)), ("randoms_polar", lambda: r.randoms_polar(n)),
            ("randoms_sphere_r", lambda: r.randoms_sphere_r(n)), ("randoms_sphere", lambda: r.randoms_sphere(n)),
            ("randoms_usphere", lambda: r.randoms_usphere(n)),
            ("randoms_healpix_pixel", lambda: r.randoms_healpix_pixel(n, 5, 2)),
            ("randoms_cdf", lambda: r.randoms_cdf(x, cdf, n, kind="linear")),
            ("randoms_pdf", lambda: r.randoms_pdf(xm, np.ones(10), n)),
            ("shuffle", lambda: r.shuffle(items)), ("random_draw", lambda: r.random_draw(items, n//2)),
            ("random_prob_draw", lambda: r.random_prob_draw(items, pr)),
            ("random_prob_draw size", lambda: r.random_prob_draw(items, pr, size=n//3)),
            ("stochastic_integer_weights", lambda: r.stochastic_integer_weights(pr*3)),
            ("stochastic_binary_weights", lambda: r.stochastic_binary_weights(pr))]


def shards(tier):
    return [{"kind": "history", "part": k, "of": 24, "depth": 3 if tier == "thorough" else 2}
            for k in range(24)] + [{"kind": "pairs"}, {"kind": "fixed"}] + \
        [{"kind": "size", "n": n} for n in SIZES]


SIZES = (50, 100, 255, 256, 999, 1000, 1001, 1024, 4096, 5000, 10000, 16384, 65536, 100000, 131072, 300000)


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def run(sh, rec, M):
    if sh["kind"] == "size":
        for name, fn in sized(M, sh["n"]):
            key = {"size": sh["n"], "call": name}
            with rec.case(key):
                got = []
                for seed in (3, 3, 4):
                    np.random.seed(seed)
                    before = state()
                    got.append(flat(rec.call(fn)))
                    rec.outcome(*got[-1])
                    rec.check(state() != before, key, "the global generator is not used")
                rec.check(same(got[0], got[1]), key, "the same seed gives another result")
                rec.check(not same(got[0], got[2]), key, "two seeds give the same result")
                np.random.seed(3)
                rec.call(fn)
                rec.check(not same(flat(rec.call(fn)), got[0]), key, "a repeated call gives the same randoms")
        return
    rnd, builders = random_calls(M)
    fix = fixed_calls(M, builders)

    def go(fn, seed=None):
        if seed is not None:
            np.random.seed(seed)
        r = flat(rec.call(fn))
        rec.outcome(*r)
        return r
    ref = {n: go(f, 5) for n, f in rnd}
    if sh["kind"] == "history":
        every = rnd + fix
        mine = every[sh["part"]::sh["of"]]
        for k in range(1, sh["depth"] + 1):
            for first in mine:
                for rest in itertools.product(every if k < 3 else rnd[::3] + fix[::5], repeat=k - 1):
                    np.random.seed()
                    for n, f in (first,) + rest:
                        rec.call(f)
                    h = [first[0]] + [n for n, _ in rest]
                    # (the calls below lengthen the history of those that follow)
                    for n, f in rnd:
                        key = {"before": h, "after the seed": n}
                        with rec.case(key):
                            rec.check(same(go(f, 5), ref[n]), key,
                                      "the same seed gives another result")
    elif sh["kind"] == "pairs":
        for (n1, f1), (n2, f2) in itertools.product(rnd, repeat=2):
            key = {"after the seed": [n1, n2]}
            with rec.case(key):
                a1 = go(f1, 9)
                a2 = go(f2)
                go(f1)
                b1 = go(f1, 9)
                b2 = go(f2)
                rec.check(same(a1, b1) and same(a2, b2), key, "the same seed gives other results")
                if n1 == n2:
                    rec.check(not same(a1, a2), key, "a repeated call gives the same randoms again")
                rec.check(not same(a2, go(f2, 9)), key,
                          "the randoms do not depend on the calls since the seed")
        for n, f in rnd:
            key = {"seeds": n}
            with rec.case(key):
                rec.check(not same(go(f, 5), go(f, 6)), key, "two seeds give the same result")
                np.random.seed(7)
                st = state()
                rec.call(f)
                rec.check(state() != st, key, "the global generator is not used")
    else:
        for n, f in fix:
            key = {"deterministic": n}
            with rec.case(key):
                np.random.seed(7)
                st = state()
                rec.call(f)
                rec.check(state() == st, key, "a deterministic call advances the generator")
