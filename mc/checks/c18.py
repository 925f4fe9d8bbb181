"""C18: stochastic integer and binary weights, over every answer of the random source."""
import itertools

import numpy as np

from mc import rng

SRC = False
MAPS = False
BOUNDS = {
    "quick": "scalar and array weights k/10 for k = -25..60, every one of 10 equally likely "
             "answers and both extreme answers; all pairs from 12 weights with all 100 pairs "
             "of answers; 80 weights up to 2^50 in 3 shapes; array lengths 0..5",
    "thorough": "weights k/20 for k=-100..200 and 20 answers; all triples of weights",
}
ASSUMPTIONS = ["one uniform double per weight"]


def shards(tier):
    K = 10 if tier == "quick" else 20
    lo, hi = (-25, 61) if tier == "quick" else (-100, 201)
    out = [{"kind": "one", "K": K, "lo": a, "hi": min(a + 11, hi)} for a in range(lo, hi, 11)]
    out += [{"kind": "pairs", "first": i} for i in range(len(PAIR))]
    if tier != "quick":
        out += [{"kind": "triples", "first": i} for i in range(len(PAIR))]
    out += [{"kind": "shapes"}, {"kind": "large"}]
    return out


PAIR = [0., 0.1, 0.5, 0.9, 1., 1.1, 1.5, 2., 2.7, 3., 5.2, 9.9]


def run(sh, rec, M):
    SI, SB = M.randoms.stochastic_integer_weights, M.randoms.stochastic_binary_weights

    def go(fn, w, u):
        r, _ = rng.scripted(lambda: rec.call(fn, w), u)
        return r
    if sh["kind"] == "one":
        K = sh["K"]
        for k in range(sh["lo"], sh["hi"]):
            w = k/K
            forms = [("scalar", w), ("array", np.array([w]))]
            if k % K == 0:
                forms += [("int", int(w)), ("intarray", np.array([int(w)])),
                          ("npint", np.int64(w))]
            for name, arg in forms:
                key = {"weight": w, "form": name}
                with rec.case(key):
                    vals = [go(SI, arg, [u]) for u in rng.mid(K)]
                    flat = np.array([float(np.asarray(v).reshape(-1)[0]) for v in vals])
                    rec.outcome(flat)
                    rec.check(all(np.shape(v) == np.shape(arg) for v in vals), key, "shape")
                    lo, hi = np.floor(k/K + 1e-12), np.ceil(k/K - 1e-12)
                    rec.check(bool(np.all((flat == lo) | (flat == hi))), key,
                              "weight is not rounded to a neighbouring integer", got=flat)
                    rec.check(abs(flat.mean() - w) < 1e-9, key,
                              "integer weights are biased", mean=flat.mean())
                    for u in (0., rng.ALMOST1):
                        v = float(np.asarray(go(SI, arg, [u])).reshape(-1)[0])
                        rec.check(v in (lo, hi), key, "extreme answer", answer=u, got=v)
                    if w >= 0.:
                        vals = [go(SB, arg, [u]) for u in rng.mid(K)]
                        flat = np.array([float(np.asarray(v).reshape(-1)[0]) for v in vals])
                        rec.check(bool(np.all((flat == 0.) | (flat == 1.))), key,
                                  "binary weight is not 0 or 1", got=flat)
                        rec.check(abs(flat.mean() - min(w, 1.)) < 1e-9, key,
                                  "binary weights are biased", mean=flat.mean())
                        for u in (0., rng.ALMOST1):
                            v = float(np.asarray(go(SB, arg, [u])).reshape(-1)[0])
                            rec.check(v in (min(lo, 1.), min(hi, 1.)), key,
                                      "extreme answer (binary)", answer=u, got=v)
    elif sh["kind"] in ("pairs", "triples"):
        nd = 2 if sh["kind"] == "pairs" else 3
        for rest in itertools.product(PAIR, repeat=nd - 1):
            w = np.array((PAIR[sh["first"]],) + rest)
            key = {"weights": w}
            with rec.case(key):
                for fn, cap in ((SI, np.inf), (SB, 1.)):
                    combos = list(itertools.product(rng.mid(10), repeat=nd))
                    v = np.array([go(fn, w, u) for u in combos], dtype=float)
                    for b in itertools.product((0, 1), repeat=nd):
                        tgt = np.array([np.floor(x) + bb for x, bb in zip(w, b)])
                        p = np.prod([(x % 1) if bb else 1 - (x % 1) for x, bb in zip(w, b)])
                        if cap == np.inf:
                            rec.check(abs(np.mean(np.all(v == tgt, axis=1)) - p) < 1e-9, key,
                                      "joint probability of a rounding", target=tgt, want=p)
                    rec.check(bool(np.all(np.abs(v.mean(axis=0) - (w if cap == np.inf else np.minimum(w, 1.)))
                                          < 1e-9)), key, "biased weights", mean=v.mean(axis=0))
                    rec.outcome(v)
                    if cap == 1.:
                        cov = np.mean(v[:, 0]*v[:, 1]) - v[:, 0].mean()*v[:, 1].mean()
                        rec.check(abs(cov) < 1e-9, key, "weights are not independent")
    elif sh["kind"] == "large":
        for b in (1e3, 7e4, 2.**31 - 2, 2.**31 - 1, 2.**31, 3e9, 2.**32, 2.**33, 1e12, 2.**50):
            for frac in (0., 0.25, 0.5, 0.75):
                for sign in (1., -1.):
                    w = sign*(b + frac)
                    for arg in (w, np.array([w]), np.array([w, 0.5, w])):
                        key = {"weight": w, "shape": np.shape(arg)}
                        n = np.size(arg)
                        with rec.case(key):
                            v = np.array([np.ravel(go(SI, arg, [u]*n)) for u in rng.mid(4)], dtype=float)
                            rec.outcome(v)
                            ok = v.shape == (4, n)
                            for q in range(0, n if ok else 0, 2):
                                ok = ok and set(v[:, q]) <= {np.floor(w), np.ceil(w)} and \
                                    np.sum(v[:, q] - np.floor(w)) == 4*(w - np.floor(w))
                            rec.check(bool(ok), key, "large weight", got=v)
                            if w > 0.:
                                v = np.array([np.ravel(go(SB, arg, [u]*n)) for u in rng.mid(4)], dtype=float)
                                rec.check(v.shape == (4, n) and bool(np.all(v[:, ::2] == 1.)), key,
                                          "large weight, binary", got=v)
    else:
        for n in range(0, 6):
            for ro in (False, True):
                w = np.linspace(0.2, 2.9, n)
                w.setflags(write=not ro)
                b = w.copy()
                key = {"length": n, "readonly": ro}
                with rec.case(key):
                    for fn in (SI, SB):
                        r = go(fn, w, rng.mid(max(n, 1)))
                        rec.outcome(r)
                        rec.check(np.shape(r) == (n,), key, "shape")
                        rec.check(np.array_equal(w, b), key, "weights changed")
