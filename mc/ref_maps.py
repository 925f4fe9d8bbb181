"""Reference model of the map remaps: weighted points that fall into source cells.

A remap is described by, for every target cell, a list of points with weights; a
source cell gets the summed weight of the points inside it.  Points closer than
EPS to a border between source cells may be counted on either side, so every
entry of the remap matrix is an interval [low, high].
"""
import itertools

import numpy as np

EPS = 1e-7


def locate(x, lo, hi, n):
    """Candidate cell indices (two, equal unless near a border) along an axis; -1: outside."""
    t = (np.asarray(x, float) - lo)/(hi - lo)*n
    a = np.floor(t - EPS).astype(int)
    b = np.floor(t + EPS).astype(int)
    out = []
    for i in (a, b):
        i = i.copy()
        i[(i < 0) | (i >= n)] = -1
        out.append(i)
    return out


class Matrix:
    """low/high: (cells, n) sums of point weights per source cell; total: (cells,)."""

    def __init__(self, ncell, n):
        self.low = np.zeros((ncell, n))
        self.high = np.zeros((ncell, n))
        self.total = np.zeros(ncell)
        self.inlow = np.zeros(ncell)
        self.inhigh = np.zeros(ncell)

    def add(self, cell, cands, wt):
        """cands: list of candidate flat indices (arrays over points; -1 outside)."""
        n = self.low.shape[1]
        self.total[cell] += wt.sum()
        first = cands[0]
        same = np.ones(len(first), bool)
        for c in cands[1:]:
            same &= c == first
        inside = same & (first >= 0)
        s = np.bincount(first[inside], weights=wt[inside], minlength=n)
        self.low[cell] += s
        self.high[cell] += s
        self.inlow[cell] += wt[inside].sum()
        self.inhigh[cell] += wt[inside].sum()
        for k in np.where(~same)[0]:
            opts = {int(c[k]) for c in cands}
            for o in opts - {-1}:
                self.high[cell, o] += wt[k]
            if -1 not in opts:
                self.inlow[cell] += wt[k]
            self.inhigh[cell] += wt[k]

    def sure(self):
        """Cells without borderline points."""
        return np.all(self.high == self.low, axis=1)


def polar_points(rlo, rhi, plo, phi, nr, npn):
    """Mid-points of nr x npn sub-cells of a polar cell with their areas."""
    re = rlo + (rhi - rlo)*np.arange(nr + 1)/nr
    pe = plo + (phi - plo)*np.arange(npn + 1)/npn
    rm, pm = 0.5*(re[1:] + re[:-1]), 0.5*(pe[1:] + pe[:-1])
    r = np.repeat(rm, npn)
    p = np.tile(pm, nr)
    a = np.repeat(re[1:]**2 - re[:-1]**2, npn)
    return r, p, a


def box_candidates(x, y, box):
    x0, x1, nx, y0, y1, ny = box
    cands = []
    for i, j in itertools.product(locate(x, x0, x1, nx), locate(y, y0, y1, ny)):
        k = j*nx + i
        k[(i < 0) | (j < 0)] = -1
        cands.append(k)
    return cands


def heal_candidates(hp, nside, v):
    """Candidate pixels of unit vectors v (n, 3): the pixels of eight nearby points."""
    v = np.asarray(v, float)
    z = np.array([0., 0., 1.])
    a = np.cross(v, z)
    n = np.linalg.norm(a, axis=1)
    a[n < 1e-3] = np.cross(v[n < 1e-3], np.array([1., 0., 0.]))
    a /= np.linalg.norm(a, axis=1)[:, None]
    b = np.cross(v, a)
    e = 1e-7
    return [hp.vec2pix(nside, *(v + e*(s*a + t*b)).T)
            for s, t in ((0, 0), (1, 1), (1, -1), (-1, 1), (-1, -1),
                         (1, 0), (-1, 0), (0, 1), (0, -1))]


def cube_candidates(x, y, z, cube, images=((0, 0, 0),)):
    """Flat indices into f[y, x, z] of points, the box being repeated at whole-box offsets."""
    x0, x1, nx, y0, y1, ny, z0, z1, nz = cube
    ax = ((x, x0, x1, nx), (y, y0, y1, ny), (z, z0, z1, nz))
    out = []
    for sg in itertools.product((-EPS, EPS), repeat=3):
        k = np.full(len(x), -1)
        for im in images:
            ind = []
            ok = np.ones(len(x), bool)
            for (c, lo, hi, n), s, m in zip(ax, sg, im):
                i = np.floor(((np.asarray(c) - lo)/(hi - lo) + m)*n + s).astype(int)
                ok &= (i >= 0) & (i < n)
                ind.append(i)
            flat = (ind[1]*nx + ind[0])*nz + ind[2]
            k[ok] = flat[ok]
        out.append(k)
    return out


PI = np.pi


def plane(ph, th):
    """HEALPix plane coordinates of one point of the sphere."""
    z = np.cos(th)
    if abs(z) <= 2./3.:
        return ph, 3*PI/8*z
    s = np.sqrt(max(0., 3*(1 - abs(z))))
    c = (np.floor(ph/(PI/2)) + 0.5)*PI/2
    return c + s*(ph - c), np.copysign(PI/4*(2 - s), z)


def unplane(x, y):
    """Inverse of plane, for arrays."""
    x, y = np.asarray(x, float) % (2*PI), np.asarray(y, float)
    cap = np.abs(y) > PI/4
    s = np.where(cap, 2 - 4*np.abs(y)/PI, 1.)
    c = (np.floor(x/(PI/2)) + 0.5)*PI/2
    ph = np.where(cap, c + (x - c)/np.where(s > 0, s, 1.), x)
    z = np.where(cap, np.sign(y)*(1 - s*s/3), 8*y/(3*PI))
    return ph, np.arccos(np.clip(z, -1., 1.))


def pixel_points(hp, nside, pix, u, v):
    """Points of a HEALPix pixel for uniform u, v in (0, 1): phi, theta."""
    th, ph = hp.pix2ang(nside, pix)
    xp, yp = plane(float(ph), float(th))
    d = PI/(4*nside)
    u, v = np.asarray(u), np.asarray(v)
    a = np.where(u <= 0.5, np.sqrt(2*u) - 1, 1 - np.sqrt(np.clip(2*(1 - u), 0, None)))
    half = d*(1 - np.abs(a))
    return unplane(xp + d*a, yp + half*(2*v - 1))
