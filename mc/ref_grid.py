"""Reference model of the grid remap: fractions of output cells covered by input cells."""
import numpy as np


def edges(origin, box, n):
    return [origin + box*i/n for i in range(n + 1)]


def fractions(o1, b1, n1, o2, b2, n2):
    """A[j, i] = length of (output cell j meets input cell i) / length of output cell j."""
    e1 = np.array(edges(o1, b1, n1))
    e2 = np.array(edges(o2, b2, n2))
    lo = np.maximum(e2[:-1, None], e1[None, :-1])
    hi = np.minimum(e2[1:, None], e1[None, 1:])
    return np.clip(hi - lo, 0., None)/(b2/n2)
