"""Rotation matrices used as reference for everything that moves on the sphere."""
import numpy as np


def Rx(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1., 0., 0.], [0., c, -s], [0., s, c]])


def Ry(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0., s], [0., 1., 0.], [-s, 0., c]])


def Rz(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0.], [s, c, 0.], [0., 0., 1.]])


def axis_angle(n, a):
    """Right-handed rotation by a about the unit vector n (Rodrigues)."""
    n = np.asarray(n, float)
    K = np.array([[0., -n[2], n[1]], [n[2], 0., -n[0]], [-n[1], n[0], 0.]])
    return np.eye(3) + np.sin(a)*K + (1. - np.cos(a))*(K @ K)


def vec(phi, theta):
    """Unit vector(s); last axis is x, y, z."""
    phi, theta = np.asarray(phi, float), np.asarray(theta, float)
    return np.stack([np.sin(theta)*np.cos(phi), np.sin(theta)*np.sin(phi), np.cos(theta)], axis=-1)


def ang(v):
    v = np.asarray(v, float)
    n = np.sqrt(np.sum(v*v, axis=-1))
    th = np.arctan2(np.hypot(v[..., 0], v[..., 1]), v[..., 2])
    return np.arctan2(v[..., 1], v[..., 0]) % (2*np.pi), th


def shortest(u, v):
    """Rotation taking unit vector u to unit vector v along the great circle."""
    n = np.cross(u, v)
    s = np.sqrt(n @ n)
    c = u @ v
    if s < 1e-14:
        return np.eye(3)
    return axis_angle(n/s, np.arctan2(s, c))
