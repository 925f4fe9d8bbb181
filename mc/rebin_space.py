"""The space shared by C04 and C05: old edges, new edges, and the overlap reference."""
import itertools

import numpy as np

STEPS = (0.5, 1., 3.)
FRAMES = ((0., 1.), (-1.7, 0.1), (1e4, 1.), (-2e-3, 1e-3), (0., 1e-16), (-3e12, 1e12))


def edge_sets(n):
    return list(itertools.product(STEPS, repeat=n))


def old_edges(steps, frame):
    o, s = FRAMES[frame]
    e = [o]
    for d in steps:
        e.append(e[-1] + d*s)
    return np.array(e)


def positions(e, inner):
    s = e[1] - e[0]
    w = e[-1] - e[0]
    p = [e[0] - w, e[0] - 0.3*s]
    for a, b in zip(e[:-1], e[1:]):
        p.append(a)
        p += [a + q*(b - a) for q in inner]
    return np.array(p + [e[-1], e[-1] + 0.3*s, e[-1] + 2*w])


def overlap(e, lo, hi):
    """Covered fraction of every old bin."""
    return np.array([max(0., min(b, hi) - max(a, lo))/(b - a) for a, b in zip(e[:-1], e[1:])])


def touches(e, lo, hi):
    """The new bin meets the old range in a point only."""
    return hi == e[0] or lo == e[-1]


def mean(fr, d, w):
    t = sum(f*k for f, k in zip(fr, w))
    return sum(f*k*x for f, k, x in zip(fr, w, d))/t if t != 0 else np.nan


def error(fr, s, w):
    t = sum(f*k for f, k in zip(fr, w))
    return np.sqrt(sum(f*(k*x)**2 for f, k, x in zip(fr, w, s)))/t if t != 0 else np.nan
