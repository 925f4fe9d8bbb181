"""C29: rotation of polar coordinates and polar grids."""
import itertools

import numpy as np

from mc.core import close

SRC = False
MAPS = True
PI, TWO = np.pi, 2*np.pi
BOUNDS = {
    "quick": "full-circle grids of 1..12 angular and 1..3 radial cells x every whole-cell shift "
             "and 5 positions within every cell, every basis field; partial grids of 1..6 cells "
             "over 4 ranges; angles: 61 angles x 40 rotations as scalar and arrays of dimension 1, 2; the four ring "
             "classes on 3 grids, and remaps on shifted rings against rotated remaps",
    "thorough": "up to 40 angular cells",
}
ASSUMPTIONS = ["cells of a partial grid whose source lies outside the grid are not judged",
               "shifts in (0, 2 pi); others must be refused"]


def shards(tier):
    n = 40 if tier == "thorough" else 12
    return ([{"kind": "full", "n": k} for k in range(1, n + 1)] +
            [{"kind": "part", "n": k} for k in range(1, 7)] + [{"kind": "phi"}] +
            [{"kind": "class", "n": k} for k in (1, 3, 4, 6)])


def shifted(f, n, dp, s, wrap):
    """Field at the middle of every cell plus s, linear in between; NaN where unknown."""
    out = np.full(f.shape, np.nan)
    t = s/dp
    k = int(np.floor(t + 1e-9))
    w = t - k
    for i in range(n):
        a, b = i + k, i + k + 1
        if wrap:
            out[i] = (1 - w)*f[a % n] + w*f[b % n]
        elif b < n:
            out[i] = (1 - w)*f[a] + w*f[b]
        elif a < n and w < 1e-9:
            out[i] = f[a]
    return out


def shifts(n, dp):
    out = []
    for k in range(n):
        out += [(k + q)*dp for q in (0., 0.1, 0.5, 0.8, 0.999)]
    return [s for s in out if 0. < s < TWO] + [1e-9, np.nextafter(TWO, 0.)]


def refused(rec, key, fn, *a):
    rec.state(key)
    try:
        r = rec.call(fn, *a)
    except Exception:
        rec.check(True, key, "")
    else:
        rec.check(False, key, "accepted what must be refused", got=r)


def run(sh, rec, M):
    C = M.coords
    n = sh.get("n")
    if sh["kind"] in ("full", "part"):
        full = sh["kind"] == "full"
        for lo, hi in (((0., TWO), (-PI, PI), (1., 1. + TWO)) if full else
                       ((0., PI), (0.3, 1.), (0., 6.), (1., TWO))):
            pe = lo + (hi - lo)*np.arange(n + 1)/n
            dp = pe[1] - pe[0]
            for nr in (1, 2, 3):
                fs = [np.arange(n*nr).reshape(n, nr)*1.5 - 2. + (np.arange(n)**2)[:, None],
                      np.arange(n*nr).reshape(n, nr)]
                if nr == 1:
                    fs += [np.eye(n)[i][:, None] for i in range(n)]
                for s in shifts(n, dp):
                    key = {"cells": [n, nr], "range": [lo, hi], "shift": s}
                    with rec.case(key):
                        for f in fs:
                            f0 = f.copy()
                            r = rec.call(C.rotate_polar_grid, pe, f, s)
                            rec.outcome(r)
                            want = shifted(f, n, dp, s, full)
                            known = ~np.isnan(want)
                            ok = np.shape(r) == f.shape and close(np.asarray(r)[known], want[known], 1e-7)
                            rec.check(ok, key, "rotated grid", f=f, got=r, want=want)
                            rec.check(np.array_equal(f, f0), key, "input changed")
            for bad in (0., TWO, -1., 7.):
                refused(rec, {"grid": n, "shift": bad}, C.rotate_polar_grid, pe, np.ones((n, 1)), bad)
    elif sh["kind"] == "phi":
        ph = np.concatenate([np.linspace(0., TWO, 49), np.linspace(-PI, 3*PI, 12)])
        for s in list(np.linspace(0.05, TWO - 0.05, 36)) + [1e-9, PI, PI/2, 1.5*PI]:
            for form in (0, 1, 2):
                key = {"rotate": s, "form": form}
                with rec.case(key):
                    a = [ph, ph[:60].reshape(5, 12), None][form]
                    for x in ([a] if form < 2 else [float(p) for p in ph]):
                        r = rec.call(C.rotate_polar, x, s)
                        rec.outcome(r)
                        d = (np.asarray(r) - x - s + PI) % TWO - PI
                        ok = np.shape(r) == np.shape(x) and np.all(np.abs(d) < 1e-9) and \
                            np.all((np.asarray(r) >= 0.) & (np.asarray(r) <= TWO))
                        rec.check(bool(ok), key, "rotated angle", phi=x, got=r)
        for bad in (0., TWO, -1., 7.):
            refused(rec, {"rotate": bad}, C.rotate_polar, ph, bad)
    else:
        nr = 2
        f = np.arange(n*nr).reshape(n, nr)*1.5 - 2. + (np.arange(n)**2)[:, None]
        box = (-2., 2., 5, -2.1, 1.9, 4)

        def dense(**k):
            b = M.densegrid.Box2Ring()
            b.setup_box(*box)
            b.setup_polar(0.2, 1.7, nr, n, rebin_p=3, **k)
            return b

        def mc():
            b = M.montecarlo.Box2Ring()
            b.setup_box(*box)
            b.setup_polar_lin(0.2, 1.7, nr, n)
            return b

        def heal(mod, **k):
            b = mod.Heal2Ring()
            b.setup_map(4)
            b.setup_polar_cap(0.2, 1.7, nr, n, center=[1., 0.8], **k)
            return b
        hk = {"rebin_alpha": 2, "rebin_beta": 3}
        objs = [("dense Box2Ring", dense()), ("mc Box2Ring", mc()),
                ("dense Heal2Ring", heal(M.densegrid, **hk)), ("mc Heal2Ring", heal(M.montecarlo))]
        dp = TWO/n
        for name, o in objs:
            for s in shifts(n, dp):
                key = {"class": name, "cells": n, "shift": s}
                with rec.case(key):
                    r = rec.call(o.rotate_polar, f, s)
                    rec.outcome(r)
                    rec.check(close(r, shifted(f, n, dp, s, True), 1e-7), key, "rotated grid", got=r)
            refused(rec, {"class": name, "shape": "wrong"}, o.rotate_polar, np.ones((n + 1, nr)), 1.)
        g = np.cos(np.arange(20)*1.3).reshape(4, 5)
        hm = np.cos(np.arange(192)*1.3)
        for k in range(1, n):
            key = {"cells": n, "whole": k}
            with rec.case(key):
                a, b = dense(), dense(phi_shift=k*dp)
                x = rec.call(a.rotate_polar, rec.call(a.remap, g), k*dp)
                rec.check(close(x, rec.call(b.remap, g), 1e-6), key,
                          "remap on shifted rings and rotated remap differ")
                a, b = heal(M.densegrid, **hk), heal(M.densegrid, beta_shift=k*dp, **hk)
                x = rec.call(a.rotate_polar, rec.call(a.remap, hm), k*dp)
                rec.check(close(x, rec.call(b.remap, hm), 1e-6), key,
                          "HEALPix remap on shifted rings and rotated remap differ")
