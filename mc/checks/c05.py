"""C05: errors of rebinned 1D data and the overlaps of one new bin."""
import itertools

import numpy as np

from mc import rebin_space as sp
from mc.core import close

SRC = False
MAPS = False
BOUNDS = {
    "quick": "old bins 1..4 with every width in {0.5, 1, 3} in 4 frames; single new bins between "
             "every ordered pair of positions (old edges, 1/3 and 3/4 points, outside points); "
             "every basis vector of errors, uneven errors, 3 weight patterns; new edge sets: "
             "every increasing subset of the positions for 1 and 2 old bins",
    "thorough": "old bins 1..6, subsets for 3 old bins as well",
}
ASSUMPTIONS = ["bins of positive width, non-negative weights and errors",
               "errors of bins that only touch the old range are not judged"]


def shards(tier):
    t = tier == "thorough"
    out = []
    for n in range(1, 7 if t else 5):
        k = max(1, 3**n//9)
        out += [{"kind": "pairs", "n": n, "part": i, "of": k} for i in range(k)]
    out += [{"kind": "subsets", "n": n, "steps": s} for n in ((1, 2, 3) if t else (1, 2))
            for s in ((1.,)*n, (0.5, 3., 1.)[:n])]
    return out


def judge(rec, key, e, new, r, plain, s, w):
    if not rec.check(isinstance(r, tuple) and len(r) == 2, key, "values and errors expected"):
        return
    rec.check(close(r[0], plain, 1e-12), key, "values with errors differ from values without",
              got=r[0], want=plain)
    sg = np.asarray(r[1])
    if not rec.check(sg.shape == (len(new) - 1,), key, "number of errors"):
        return
    for k in range(len(new) - 1):
        fr = sp.overlap(e, new[k], new[k + 1])
        if not np.any(fr > 0.):
            if sp.touches(e, new[k], new[k + 1]):
                rec.skipped += 1
            else:
                rec.check(np.isnan(sg[k]), key, "error of a bin without overlap", got=sg)
            continue
        want = sp.error(fr, s, w)
        ok = np.isnan(sg[k]) if np.isnan(want) else abs(sg[k] - want) <= 1e-6*(1e-9 + np.max(s) + want)
        rec.check(ok, key, "error of new bin %d" % k, got=sg, want=want)


def run(sh, rec, M):
    fn = M.one_d.rebin_1d
    n = sh["n"]
    s1 = 0.3 + 0.2*((np.arange(n)*7) % 5)
    d1 = np.cos(np.arange(n) + 1.)
    wts = [None, 1. + 0.5*np.arange(n), (np.arange(n) % 2)*2., 1. - (np.arange(n) % 2)]
    if sh["kind"] == "pairs":
        for steps in sp.edge_sets(n)[sh["part"]::sh["of"]]:
            for fr in range(len(sp.FRAMES)):
                e = sp.old_edges(steps, fr)
                pos = sp.positions(e, (1/3., 0.75))
                for lo, hi in itertools.combinations(pos, 2):
                    new = np.array([lo, hi])
                    key = {"old": e, "new": new}
                    with rec.case(key):
                        plain = rec.call(fn, e, d1, new)
                        for s in ([s1] if fr else list(np.eye(n)) + [s1, np.arange(n) + 1]):
                            r = rec.call(fn, e, d1, new, sigma=s)
                            rec.outcome(r[1])
                            judge(rec, key, e, new, r, plain, s, np.ones(n))
                        for w in wts[1:]:
                            p2 = rec.call(fn, e, d1, new, w=w)
                            r = rec.call(fn, e, d1, new, w=w, sigma=s1)
                            judge(rec, dict(key, w=w), e, new, r, p2, s1, w)
                        if not fr:
                            di, wi, si = np.arange(n)*3 - 1, np.arange(n) % 3, np.arange(n) + 1
                            p2 = rec.call(fn, e, di, new, w=wi)
                            r = rec.call(fn, e, di, new, w=wi, sigma=si)
                            judge(rec, dict(key, w="integers"), e, new, r, p2, si, wi)
                        f = sp.overlap(e, lo, hi)
                        r = rec.call(M.one_d.rebin_1d_single_bin_weights, e, lo, hi)
                        if np.any(f > 0.):
                            r = np.asarray(r)
                            ok = r.shape == (n,) and np.sum(r) > 0 and \
                                close(r/np.sum(r), f/np.sum(f), 1e-6)
                            rec.check(ok, key, "overlaps of one bin", got=r, want=f)
                        elif not sp.touches(e, lo, hi):
                            rec.check(np.ndim(r) == 0 and np.isnan(r), key,
                                      "overlaps of a bin outside", got=r)
    else:
        e = sp.old_edges(sh["steps"], 0)
        pos = sp.positions(e, (1/3., 0.75) if n < 3 else (0.4,))
        w = np.array([1., 3., 0.5])[:n]
        for k in range(2, len(pos) + 1):
            for new in itertools.combinations(pos, k):
                new = np.array(new)
                key = {"old": e, "new": new}
                with rec.case(key):
                    plain = rec.call(fn, e, d1, new)
                    r = rec.call(fn, e, d1, new, sigma=s1)
                    rec.outcome(r[1])
                    judge(rec, key, e, new, r, plain, s1, np.ones(n))
                    plain = rec.call(fn, e, d1, new, w=w)
                    r = rec.call(fn, e, d1, new, w=w, sigma=s1)
                    judge(rec, dict(key, w=w), e, new, r, plain, s1, w)
