"""Small triangle meshes with integer / dyadic coordinates."""
import itertools

import numpy as np

TETRA_F = [(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)]
TETRA_V = [(0, 0, 0), (1, 0, 0.25), (0.25, 1, 0), (0.25, 0.25, 1)]
OCTA_V = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
OCTA_F = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]


def cube():
    V = list(itertools.product((0, 1), repeat=3))
    quads = [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
    F = []
    for a, b, c, d in quads:
        F += [(a, b, c), (a, c, d)]
    return V, F


def torus(n=3, m=3):
    """Triangulated torus n x m."""
    V = []
    for i in range(n):
        for j in range(m):
            a, b = 2 * np.pi * i / n, 2 * np.pi * j / m
            V.append(tuple(np.round([(2 + 0.75 * np.cos(b)) * np.cos(a), (2 + 0.75 * np.cos(b)) * np.sin(a), 0.75 * np.sin(b)], 3)))
    F = []
    for i in range(n):
        for j in range(m):
            p = lambda x, y: (x % n) * m + y % m  # noqa: E731
            F += [(p(i, j), p(i + 1, j), p(i + 1, j + 1)), (p(i, j), p(i + 1, j + 1), p(i, j + 1))]
    return V, F


def bipyramid(n):
    V = [tuple(np.round([np.cos(2 * np.pi * k / n), np.sin(2 * np.pi * k / n), 0.125 * (k % 2)], 3)) for k in range(n)] + [(0.125, 0, 1), (0, 0.125, -1.25)]
    F = []
    for k in range(n):
        F += [(k, (k + 1) % n, n), ((k + 1) % n, k, n + 1)]
    return V, F


def strip(n):
    V = [(k // 2 + 0.25 * (k % 2), k % 2, 0.125 * (k * k % 3)) for k in range(n + 2)]
    F = [(k, k + 1, k + 2) if k % 2 else (k + 1, k, k + 2) for k in range(n)]
    return V, F


def open_fan(n):
    V = [(0, 0, 0.5)] + [tuple(np.round([np.cos(1.1 * k), np.sin(1.1 * k), 0.25 * (k % 2)], 3)) for k in range(n + 1)]
    return V, [(0, k + 1, k + 2) for k in range(n)]


def grid(n, m):
    V = [(i, j, (i * j % 3) * 0.25) for i in range(n + 1) for j in range(m + 1)]
    F = []
    for i in range(n):
        for j in range(m):
            p = lambda x, y: x * (m + 1) + y  # noqa: E731
            F += [(p(i, j), p(i + 1, j), p(i + 1, j + 1)), (p(i, j), p(i + 1, j + 1), p(i, j + 1))]
    return V, F


def closed():
    out = {"tetra": (TETRA_V, TETRA_F), "octa": (OCTA_V, OCTA_F), "cube": cube(), "torus33": torus(3, 3), "torus34": torus(3, 4), "bipyr3": bipyramid(3), "bipyr5": bipyramid(5)}
    two = (list(TETRA_V) + [tuple(np.add(v, (3, 1, 0.5))) for v in OCTA_V], list(TETRA_F) + [tuple(np.add(f, 4)) for f in OCTA_F])
    out["two"] = two
    return {k: orient(np.array(v, dtype=np.float64), np.array(f)) for k, (v, f) in out.items()}


def opened():
    out = {"triangle": (TETRA_V[:3], [(0, 1, 2)]), "strip2": strip(2), "strip5": strip(5), "fan3": open_fan(3), "fan5": open_fan(5), "grid22": grid(2, 2), "grid32": grid(3, 2),
           "opentetra": (TETRA_V, TETRA_F[:3]), "opencube": (cube()[0], cube()[1][:-2])}
    return {k: (np.array(v, dtype=np.float64), np.array(f)) for k, (v, f) in out.items()}


def signed_volume(V, F):
    a, b, c = V[F[:, 0]], V[F[:, 1]], V[F[:, 2]]
    return float(np.einsum("ij,ij->i", a, np.stack([b[:, 1] * c[:, 2] - b[:, 2] * c[:, 1], b[:, 2] * c[:, 0] - b[:, 0] * c[:, 2], b[:, 0] * c[:, 1] - b[:, 1] * c[:, 0]], 1)).sum() / 6)


def orient(V, F):
    """Outward for the counterclockwise convention."""
    if signed_volume(V, F) < 0:
        F = F[:, ::-1].copy()
    return V, F


def cross(u, v):
    return np.stack([u[..., 1] * v[..., 2] - u[..., 2] * v[..., 1], u[..., 2] * v[..., 0] - u[..., 0] * v[..., 2], u[..., 0] * v[..., 1] - u[..., 1] * v[..., 0]], -1)


def face_normals(V, F, clockwise=False):
    n = cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    if clockwise:
        n = -n
    return n / np.sqrt((n * n).sum(1))[:, None]


def vertex_normals(V, F, clockwise=False):
    fn = face_normals(V, F, clockwise)
    s = np.zeros((len(V), 3), dtype=fn.dtype)
    for k in range(3):
        np.add.at(s, F[:, k], fn)
    return s / np.sqrt((s * s).sum(1))[:, None]
