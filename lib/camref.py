"""Independent camera model (OpenCV pinhole with five distortion coefficients), works on complex input for complex-step derivatives."""
import itertools

import numpy as np

INTRINSICS = [np.array(m, dtype=np.float64) for m in (
    [[5, 0, 2], [0, 5, 2.5], [0, 0, 1]], [[3, 0.75, 1], [0, 4.5, 3], [0, 0, 1]], [[100, -7, 320], [0, 80, 240], [0, 0, 1]],
    [[2, 0.5, 0], [0.25, 3, -1], [0, 0, 1]], [[-4, 0, 2], [0, 6, 2], [0, 0, 1]])]
DIST = [None] + [tuple(v if j == k else 0.0 for j in range(5)) for k in range(5) for v in (0.3, -0.15)] + [(0.1, -0.05, 0.02, 0.03, 0.01), (0.0,) * 5]
TRANS = [(0, 0, 0), (0.5, -1, 2), (-3, 0.25, 1.5)]
PC = [(x * z, y * z, z) for x in (-0.8, 0.0, 0.45) for y in (-0.6, 0.1, 0.9) for z in (0.5, 2.0, 7.0)] + [(0.3, 0.7, -1.5), (-2.0, 0.5, -0.25)]


def project(P, E, K, dist):
    """points (n,3) -> pixels (n,2), depths (n)."""
    R, t = E[:, :3], E[:, 3]
    c = np.stack([sum(R[i, j] * P[:, j] for j in range(3)) + t[i] for i in range(3)], 1)
    x, y = c[:, 0] / c[:, 2], c[:, 1] / c[:, 2]
    if dist is not None:
        k1, k2, p1, p2, k3 = dist
        r2 = x * x + y * y
        radial = 1 + r2 * (k1 + r2 * (k2 + r2 * k3))
        x, y = (x * radial + 2 * p1 * x * y + p2 * (r2 + 2 * x * x), y * radial + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y)
    u = K[0, 0] * x + K[0, 1] * y + K[0, 2]
    v = K[1, 0] * x + K[1, 1] * y + K[1, 2]
    return np.stack([u, v], 1), c[:, 2]


def vjp(P, E, K, dist, ub, db):
    out = np.zeros_like(P)
    for k in range(3):
        Q = P.astype(complex)
        Q[:, k] += 1e-40j
        u, d = project(Q, E, K, dist)
        out[:, k] = ((u.imag * ub).sum(1) + (0 if db is None else d.imag * db)) / 1e-40
    return out


def world(E):
    """The points PC of the camera frame, in the world frame."""
    return (np.array(PC) - E[:, 3]).dot(E[:, :3])
