"""C04: rebinned 1D data."""
import itertools

import numpy as np

from mc import rebin_space as sp
from mc.core import close

SRC = False
MAPS = False
BOUNDS = {
    "quick": "old bins 1..4 with every width in {0.5, 1, 3} in 6 frames (scales from 1e-16 to 1e12); single new bins between "
             "every ordered pair of positions (old edges, 1/3 and 3/4 points of every old bin, "
             "two outside points each side); every basis vector, dense and integer data, 3 weight "
             "patterns incl. zeros; new edge sets: every increasing subset of the positions for "
             "1 and 2 old bins; monotonicity of every sequence of length 1..5 over 3 values; "
             "up to 200 old and 300 new bins",
    "thorough": "old bins 1..6, subsets for 3 old bins as well",
}
ASSUMPTIONS = ["bins of positive width, finite data, non-negative weights",
               "a new bin that only touches the old range may give NaN or the edge bin's value"]


def shards(tier):
    t = tier == "thorough"
    out = []
    for n in range(1, 7 if t else 5):
        sets = sp.edge_sets(n)
        k = max(1, len(sets)//9)
        for i in range(k):
            out.append({"kind": "pairs", "n": n, "part": i, "of": k})
    out += [{"kind": "subsets", "n": n, "steps": s} for n in ((1, 2, 3) if t else (1, 2))
            for s in ((1.,)*n, (0.5, 3., 1.)[:n])]
    out += [{"kind": "mono"}, {"kind": "large"}, {"kind": "refuse"}]
    return out


def judge(rec, key, e, new, r, d, w):
    """Every new bin of one call."""
    r = np.asarray(r)
    if not rec.check(r.shape == (len(new) - 1,), key, "number of new bins", got=r):
        return
    for k in range(len(new) - 1):
        lo, hi = new[k], new[k + 1]
        fr = sp.overlap(e, lo, hi)
        if not np.any(fr > 0.):
            if sp.touches(e, lo, hi):
                rec.skipped += 1
                i = 0 if hi == e[0] else -1
                ok = np.isnan(r[k]) or close(r[k], d[i])
            else:
                ok = np.isnan(r[k])
            rec.check(ok, key, "new bin without overlap", bin=k, got=r)
        else:
            want = sp.mean(fr, d, w)
            scale = 1. if np.isnan(want) else 1. + np.max(np.abs(d))
            ok = np.isnan(r[k]) if np.isnan(want) else abs(r[k] - want) <= 1e-7*scale
            rec.check(ok, key, "value of new bin %d" % k, got=r, want=want)


def run(sh, rec, M):
    fn = M.one_d.rebin_1d
    if sh["kind"] == "pairs":
        n = sh["n"]
        d1 = ((np.arange(n)*7 % 5) - 1.5)*np.where(np.arange(n) % 2, 1., -2.)
        wts = [None, 1. + 0.5*np.arange(n), (np.arange(n) % 2)*2., 1. - (np.arange(n) % 2)]
        for steps in sp.edge_sets(n)[sh["part"]::sh["of"]]:
            for fr in range(len(sp.FRAMES)):
                e = sp.old_edges(steps, fr)
                pos = sp.positions(e, (1/3., 0.75))
                for lo, hi in itertools.combinations(pos, 2):
                    new = np.array([lo, hi])
                    key = {"old": e, "new": new}
                    with rec.case(key):
                        datas = [d1] if fr else list(np.eye(n)) + [d1, np.arange(n)*3 - 1]
                        for d in datas:
                            r = rec.call(fn, e, d, new)
                            rec.outcome(r)
                            judge(rec, key, e, new, r, d, np.ones(n))
                        for w in wts[1:]:
                            r = rec.call(fn, e, d1, new, w=w)
                            judge(rec, dict(key, w=w), e, new, r, d1, w)
                        if not fr:
                            di, wi = np.arange(n)*3 - 1, np.arange(n) % 3
                            r = rec.call(fn, e, di, new, w=wi)
                            judge(rec, dict(key, w="integers"), e, new, r, di, wi)
    elif sh["kind"] == "subsets":
        n = sh["n"]
        e = sp.old_edges(sh["steps"], 0)
        pos = sp.positions(e, (1/3., 0.75) if n < 3 else (0.4,))
        d = np.array([2., -1., 5.])[:n]
        w = np.array([1., 3., 0.5])[:n]
        for k in range(2, len(pos) + 1):
            for new in itertools.combinations(pos, k):
                new = np.array(new)
                key = {"old": e, "new": new}
                with rec.case(key):
                    r = rec.call(fn, e, d, new)
                    rec.outcome(r)
                    judge(rec, key, e, new, r, d, np.ones(n))
                    r = rec.call(fn, e, d, new, w=w)
                    judge(rec, dict(key, w=w), e, new, r, d, w)
    elif sh["kind"] == "large":
        for n1, n2 in itertools.product((7, 50, 200), (3, 64, 300)):
            for a, b in ((0., 1.), (-0.21, 0.7), (0.303, 0.404), (-2., 3.)):
                e = np.linspace(0., 1., n1 + 1)
                new = np.linspace(a, b, n2 + 1)
                for warp in (1., 2.):
                    e2, f = e**warp, np.cos(np.arange(n1))
                    key = {"n": [n1, n2], "range": [a, b], "warp": warp}
                    with rec.case(key):
                        r = rec.call(fn, e2, f, new)
                        rec.outcome(r)
                        # edges equal up to rounding: either side is right, so compare
                        # only bins whose edges are clear of old edges or exactly equal
                        good = [k for k in range(n2) if all(
                            np.min(np.abs(e2 - x)) == 0 or np.min(np.abs(e2 - x)) > 1e-12
                            for x in new[k:k + 2])]
                        rec.check(np.shape(r) == (n2,), key, "number of new bins")
                        for k in good:
                            fr = sp.overlap(e2, new[k], new[k + 1])
                            if not np.any(fr > 0):
                                if not sp.touches(e2, new[k], new[k + 1]):
                                    rec.check(np.isnan(r[k]), key, "new bin without overlap")
                                continue
                            want = sp.mean(fr, f, np.ones(n1))
                            rec.check(abs(r[k] - want) < 1e-8, key, "value of new bin %d" % k,
                                      got=r[k], want=want)
    elif sh["kind"] == "mono":
        for k in range(1, 6):
            for a in itertools.product((0., 1., 2.5), repeat=k):
                want = all(x <= y for x, y in zip(a[:-1], a[1:]))
                for form in (list(a), np.array(a), tuple(a)):
                    key = {"sequence": a}
                    with rec.case(key):
                        r = rec.call(M.utils.is_pos_monotonic, form)
                        rec.outcome(bool(r))
                        rec.check(bool(r) == want, key, "monotonic", got=r)
    else:
        e, d, new = np.array([0., 1., 2., 4.]), np.array([1., 2., 3.]), np.array([0.5, 1.5, 3.])
        bad = [((e[::-1], d, new), {}), ((e, d, new[::-1]), {}), ((e, d[:2], new), {}),
               ((e, np.append(d, 1.), new), {}), ((e, d, new), {"w": d[:2]}),
               ((e, d, new), {"sigma": d[:1]}), ((e[[0, 2, 1, 3]], d, new), {}),
               ((e, d, new[[0, 2, 1]]), {}), ((e, d, new), {"w": d, "sigma": np.append(d, 1.)})]
        for i, (a, k) in enumerate(bad):
            key = {"refused": i}
            rec.state(key)
            try:
                r = rec.call(fn, *a, **k)
            except Exception:
                rec.check(True, key, "")
            else:
                rec.check(False, key, "edges or lengths that do not fit are accepted", got=r)
