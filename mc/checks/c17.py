"""C17: shuffles and draws without repeats, over every order of the random answers."""
import itertools
from collections import Counter

import numpy as np

from mc import rng

SRC = False
MAPS = False
BOUNDS = {
    "quick": "samples of 0..6 items (several types): every one of the n! orders of the answers "
             "of the random source (far apart; adjacent doubles for up to 5), every draw size; probabilistic draws: every combination of "
             "4 equally likely answers per item and every probability in {0, 1/4, 1/2, 3/4, 1} "
             "for up to 3 items; sized draws over all orders",
    "thorough": "samples up to 7 items; probabilistic draws up to 4 items",
}
ASSUMPTIONS = ["one uniform double per item; ties between answers have probability zero"]


def shards(tier):
    out = []
    for n in range(0, 7 if tier == "quick" else 8):
        out.append({"kind": "shuffle", "n": n})
        for k in range(0, n):
            out.append({"kind": "draw", "n": n, "k": k})
    for n in range(1, 4 if tier == "quick" else 5):
        for p0 in range(5):
            out.append({"kind": "prob", "n": n, "p0": p0})
    for n in range(2, 6):
        out.append({"kind": "probsize", "n": n})
    out.append({"kind": "refuse"})
    return out


def samples(n):
    yield "int", np.arange(n)*10 + 3
    yield "float", np.linspace(-1., 1., n)
    yield "repeat", np.array([1, 1, 2, 2, 3, 3, 3][:n])
    yield "rows", np.arange(2*n).reshape(n, 2)
    yield "str", np.array(list("abcdefg"[:n]), dtype="U1")


def orders(n, level=0):
    """All orders of n answers: spread out, or as close together as doubles get (around a half, next to 0)."""
    lv = rng.mid(max(n, 1)) if level == 0 else \
        [(0.5 if level == 1 else 0.)+(i + 1)*2.**-53*(2 if level == 1 else 1) for i in range(n)]
    return itertools.permutations(lv[:n])


def rows(a):
    return tuple(map(str, np.asarray(a).tolist()))


def run(sh, rec, M):
    R = M.randoms
    kind = sh["kind"]
    if kind in ("shuffle", "draw"):
        n = sh["n"]
        for level, (name, s) in [(0, q) for q in samples(n)] + \
                ([(v, ("float", np.linspace(-1., 1., n))) for v in (1, 2)] if n <= 5 else []):
            base = {"fn": kind, "n": n, "sample": name, "level": level}
            k = sh.get("k")
            seen = Counter()
            marked = np.arange(n)
            before = s.copy()
            for o in orders(n, level):
                key = dict(base, k=k, order=o)
                with rec.case(key):
                    if kind == "shuffle":
                        r, _ = rng.scripted(lambda: rec.call(R.shuffle, s), o)
                        m, _ = rng.scripted(lambda: rec.call(R.shuffle, marked), o)
                        size = n
                    else:
                        r, _ = rng.scripted(lambda: rec.call(R.random_draw, s, k), o)
                        m, _ = rng.scripted(lambda: rec.call(R.random_draw, marked, k), o)
                        size = k
                    rec.outcome(r)
                    rec.check(isinstance(r, np.ndarray) and len(r) == size and
                              r.shape[1:] == s.shape[1:] and r.dtype == s.dtype, key,
                              "wrong number or type of items", got=r)
                    rec.check(np.array_equal(s[m], r), key,
                              "items drawn depend on the values of the sample", got=r)
                    rec.check(len(set(m.tolist())) == size, key, "an item is drawn twice", got=m)
                    rec.check(np.array_equal(s, before), key, "the sample is changed")
                    rec.check(not np.shares_memory(r, s), key, "the result shares memory with the sample")
                    seen[tuple(m.tolist())] += 1
            want = list(itertools.permutations(range(n), n if k is None else k))
            with rec.case(dict(base, k=k, all=True)):
                rec.check(set(seen) == set(want) and len(set(seen.values())) <= 1,
                          dict(base, k=k), "not every arrangement equally often",
                          arrangements=len(seen), want=len(want))
    elif kind == "prob":
        n = sh["n"]
        ps = [0., 0.25, 0.5, 0.75, 1.]
        for rest in itertools.product(ps, repeat=n - 1):
            prob = np.array((ps[sh["p0"]],) + rest)
            s = np.arange(n)*2 + 5
            cnt = Counter()
            arr = {}
            for u in itertools.product(rng.mid(4), repeat=n):
                for tail in (rng.mid(n), rng.mid(n)[::-1]):
                    key = {"fn": "prob", "prob": prob, "answers": u + tuple(tail)}
                    with rec.case(key):
                        r, _ = rng.scripted(lambda: rec.call(R.random_prob_draw, s, prob),
                                            list(u) + list(tail))
                        rec.outcome(r)
                        items = sorted(np.asarray(r).tolist())
                        rec.check(set(items) <= set(s.tolist()) and len(set(items)) == len(items),
                                  key, "drawn items are not distinct items of the sample", got=r)
                        sub = tuple(items)
                        cnt[sub] += 1
                        arr.setdefault(sub, set()).add(tuple(np.asarray(r).tolist()))
            key = {"fn": "prob", "prob": prob}
            with rec.case(key):
                for bits in itertools.product((0, 1), repeat=n):
                    sub = tuple(int(x) for x, b in zip(s, bits) if b)
                    w = np.prod([p if b else 1. - p for p, b in zip(prob, bits)])*2*4**n
                    rec.check(abs(cnt.get(sub, 0) - w) < 1e-9, key,
                              "subset is not drawn with its probability", subset=sub,
                              got=cnt.get(sub, 0), want=w)
                    if w > 0 and len(sub) > 1:
                        rec.check(len(arr[sub]) > 1, key, "draw is not shuffled", subset=sub)
        # extreme answers: certain and impossible items
        s = np.arange(n)
        for prob in itertools.product((0., 1.), repeat=n):
            for u in itertools.product((0., rng.ALMOST1), repeat=n):
                key = {"fn": "prob", "prob": prob, "answers": u}
                with rec.case(key):
                    r, _ = rng.scripted(lambda: rec.call(R.random_prob_draw, s, np.array(prob)),
                                        list(u) + rng.mid(n))
                    rec.check(sorted(np.asarray(r).tolist()) ==
                              [i for i in range(n) if prob[i] == 1.], key,
                              "an impossible item is drawn or a certain one is not", got=r)
    elif kind == "probsize":
        n = sh["n"]
        plist = [np.full(n, 0.5), np.linspace(0.1, 1., n), np.linspace(2., 0.5, n),
                 np.array([1e-6] + [1.]*(n - 1))]
        for pi, prob in enumerate(plist):
            for size in range(0, n):
                hits = np.zeros(n)
                subs = Counter()
                arr = {}
                for o in orders(n):
                    for tail in (rng.mid(max(size, 1)), rng.mid(max(size, 1))[::-1]):
                        key = {"fn": "probsize", "prob": prob, "size": size, "order": o}
                        with rec.case(key):
                            s = np.arange(n)
                            r, _ = rng.scripted(lambda: rec.call(
                                R.random_prob_draw, s, prob, size=size), list(o) + list(tail))
                            rec.outcome(r)
                            m = np.asarray(r).tolist()
                            rec.check(len(m) == size and len(set(m)) == size and
                                      set(m) <= set(range(n)), key,
                                      "draw is not `size` distinct items", got=r)
                            for i in m:
                                hits[i] += 1
                            subs[tuple(sorted(m))] += 1
                            arr.setdefault(tuple(sorted(m)), set()).add(tuple(m))
                key = {"fn": "probsize", "prob": prob, "size": size}
                with rec.case(key):
                    for sub in arr:
                        rec.check(len(sub) < 2 or len(arr[sub]) > 1, key, "sized draw is not shuffled",
                                  subset=sub)
                    for i in range(n):
                        for j in range(n):
                            if prob[i] == prob[j] and pi == 0:
                                rec.check(hits[i] == hits[j], key, "equal items not equally likely")
                            if prob[i] > prob[j]:
                                rec.check(hits[i] >= hits[j], key,
                                          "likelier item drawn less often", hits=hits)
                    if pi == 0:
                        rec.check(len(set(subs.values())) == 1 and len(subs) == len(list(
                            itertools.combinations(range(n), size))), key,
                            "subsets not equally likely")
                    if pi == 3 and size == n - 1:
                        rec.check(hits[0] < hits[1], key, "nearly impossible item always drawn",
                                  hits=hits)
    else:
        s = np.arange(4)
        p = np.full(4, 0.5)
        for name, fn in (("draw", lambda k: R.random_draw(s, k)),
                         ("prob", lambda k: R.random_prob_draw(s, p, size=k))):
            for k in (4, 5, 9):
                key = {"fn": name, "too_many": k}
                with rec.case(key):
                    try:
                        rec.call(fn, k)
                        ok = False
                    except Exception:
                        ok = True
                    rec.check(ok, key, "a draw of all or more items is not refused")
        for i in range(4):
            q = p.copy()
            q[i] = 0.
            key = {"fn": "prob", "zero_at": i}
            with rec.case(key):
                try:
                    rec.call(R.random_prob_draw, s, q, size=2)
                    ok = False
                except Exception:
                    ok = True
                rec.check(ok, key, "a sized draw with an impossible item is not refused")
