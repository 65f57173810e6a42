"""Families of small 2.5D scenes shared by the renderer checks. Every generator is exhaustive over its stated index set."""
import itertools

import numpy as np

from dlib import hashed, scene

LAT = [(x, y) for x in (-0.75, 1.25, 2.5, 4.5) for y in (-1.25, 0.75, 2.25, 5.5)]
LATX = [(x, y) for x in (-1.5, 0.0, 1.25, 3.0, 4.5) for y in (-1.25, 0.0, 2.0, 3.25, 5.5)]
SHAPES = [((-1.25, -1), (6, 0.25), (0.5, 5.5)), ((0.25, 0.5), (4, 0.25), (0.5, 4)), ((1, 0.25), (3.5, 1.5), (0.75, 3)),
          ((3, 3.25), (3.25, 0), (0, 3)), ((0.5, 0.5), (3.5, 2), (1, 2.25)), ((2, -3), (2.5, 7), (-1, 2)), ((1, 1), (1.5, 1.25), (1.25, 1.75)),
          ((-3, 2), (9, 2.5), (9, 3))]
DEPTHS = [(2, 2, 2), (1, 3, 5), (5, 3.5, 1), (0.5, 4, 0.75)]
ALLFLAGS = [dict(clockwise=bool(c), backface_culling=bool(b), strict_edge=bool(s), perspective_correct=bool(p), integer_pixel_centers=bool(i))
            for c, b, s, p, i in itertools.product((0, 1), repeat=5)]


def area2(t):
    (x0, y0), (x1, y1), (x2, y2) = t
    return (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)


def flags_of(i):
    return np.array([bool(i >> k & 1) for k in range(3)])


def single(lat, a, b, c, i, flags, **kw):
    """One triangle, coloured or textured (i rotates the depth pattern, edge flags, channels, texturing)."""
    d = DEPTHS[i % 4]
    nc = (1, 3)[i // 4 % 2]
    tex = kw.pop("textured", bool(i // 8 % 2))
    e = flags_of((7, 1, 2, 4, 5, 3, 6, 7)[i // 16 % 8]) if "edgeflags" not in kw else kw.pop("edgeflags")
    opt = dict(width=4, height=5, nb_colors=nc)
    if tex:
        opt.update(textured=[True], texture=hashed(3 * 4 * nc, 7).reshape(3, 4, nc) + 0.25,
                   uv=[(-0.6 + i % 3, 0.3), (2.4, 2.7), (3.8, 0.45)], faces_uv=[(i % 3, (i + 1) % 3, (i + 2) % 3)], shade=[0.5, 1.25, 0.75])
    else:
        opt.update(shaded=[bool(i // 2 % 2)])  # without effect
    opt.update(kw)
    return scene([lat[a], lat[b], lat[c]], [(0, 1, 2)], d, edgeflags=[e], **opt, **flags)


def multi(shapes, depths, i, flags, textured=0, edgemask=None, **kw):
    """Several separate triangles; corners are reversed where needed so that all are front facing (i & 16: second one back facing)."""
    V, F, D, E = [], [], [], []
    for k, (s, d) in enumerate(zip(shapes, depths)):
        V += list(s)
        D += list(d)
        f = [3 * k, 3 * k + 1, 3 * k + 2]
        front = (area2(s) > 0) == bool(flags.get("clockwise", False))
        if not front:
            f = f[::-1]
        if k == 1 and i & 16:
            f = f[::-1]
        r = (i // 3 + k) % 3
        F.append(f[r:] + f[:r])
        E.append(flags_of(((edgemask >> (3 * k)) & 7) if edgemask is not None else 7))
    n = len(F)
    nc = (2, 3, 1)[i % 3]
    opt = dict(width=5, height=4, nb_colors=nc)
    t = np.array([bool(textured >> k & 1) for k in range(n)])
    if t.any():
        nuv = 2 * n + 1
        opt.update(textured=t, shaded=t | (hashed(n, i % 13) < 0.5), texture=hashed(3 * 4 * nc, 7).reshape(3, 4, nc) + 0.25, uv=hashed(nuv * 2, 11 + i % 5).reshape(nuv, 2) * [4.2, 3.1] - 0.55,
                   faces_uv=(np.arange(3 * n).reshape(n, 3) * 2 + i) % nuv, shade=0.5 + hashed(3 * n, i % 7))
    opt.update(kw)
    return scene(V, F, D, edgeflags=E, **opt, **flags)


def fan(n, i, flags, flat=False, **kw):
    """A fan of n triangles sharing vertices around (2.2, 1.8), depth tilted: shared vertices, silhouette edges only on the rim.
    flat: all depths exactly zero and the same edges (bits of i) of every triangle antialiased."""
    ang = 2 * np.pi * (np.arange(n) + 0.13 * (i % 5)) / n
    V = np.round(np.concatenate([[[2.2, 1.8]], np.stack([2.2 + 2.4 * np.cos(ang), 1.8 + 2.1 * np.sin(ang)], 1)]) * 64) / 64
    F = np.array([(0, 1 + k, 1 + (k + 1) % n) for k in range(n)])
    if not flags.get("clockwise", False):
        F = F[:, ::-1]
        E = np.tile([True, False, False], (n, 1))
        # reversed (c, b, 0): edge c->b is edge 0
    else:
        E = np.tile([False, True, False], (n, 1))
    D = 2 + 0.25 * V[:, 0] + 0.125 * V[:, 1]
    if flat:
        D *= 0
        E = np.array([[i >> e & 1 for e in range(3)]] * n, dtype=bool)
    opt = dict(width=6, height=5, nb_colors=2)
    opt.update(kw)
    return scene(V, F, D, edgeflags=E, **opt, **flags)
