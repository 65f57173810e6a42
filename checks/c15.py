"""C15: silhouette flags against their definition for every assignment of mesh vertices to lattice points."""
import itertools
import warnings

import numpy as np

import meshes
from deodr.triangulated_mesh import TriMesh
from dlib import dr
from runner import R

ID = "C15"
LEVEL = "exploration"
RULE = ("every assignment of the vertices of the triangle, two- and three-triangle strips, open fan, tetrahedron (5x5 lattice for up to 3 vertices, 3x3 lattice for more; thorough 4x4) and octahedron (2x3 lattice) to lattice points x both orientations x face rotations, at three sizes and far from the origin; "
        "all library meshes under 60 projections; the facing rule is compared with what the renderer draws when culling; non-manifold meshes must raise; distinct = distinct flag patterns")
ASSUME = ["positions are exact in floating point, so the sign of every triangle's area is exact"]


def facing(P, F, clockwise):
    out = []
    for a, b, c in F:
        ar = (P[b][0] - P[a][0]) * (P[c][1] - P[a][1]) - (P[c][0] - P[a][0]) * (P[b][1] - P[a][1])
        out.append(ar > 0 if clockwise else ar < 0)
    return out


def expected(P, F, clockwise):
    vis = facing(P, F, clockwise)
    cnt = {}
    for k, f in enumerate(F):
        for e in range(3):
            key = frozenset((f[e], f[(e + 1) % 3]))
            cnt[key] = cnt.get(key, 0) + bool(vis[k])
    return np.array([[cnt[frozenset((f[e], f[(e + 1) % 3]))] == 1 for e in range(3)] for f in F]), vis


LISTS = {
    "triangle": ([(0, 1, 2)], 3),
    "pair": ([(0, 1, 2), (2, 1, 3)], 4),
    "strip3": ([(0, 1, 2), (2, 1, 3), (2, 3, 4)], 5),
    "fan3": ([(0, 1, 2), (0, 2, 3), (0, 3, 1)], 4),
    "tetra": (meshes.TETRA_F, 4),
    "rotated": ([(2, 1, 0), (3, 1, 2), (0, 3, 2), (1, 3, 0)], 4),
    "separate": ([(0, 1, 2), (3, 4, 5)], 6),
    "octa": (meshes.OCTA_F, 6),
}


def lattice(name, tier):
    if LISTS[name][1] == 3:
        return [(x, y) for x in range(5) for y in (0, 1, 2.5, 3, 4)]
    if name in ("octa", "separate"):
        return [(0, 0), (1, 0), (0, 1), (1, 1.5)] + ([(2, 1)] if tier == "thorough" else [])
    if LISTS[name][1] == 5:
        return [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (0.5, 2.5)]
    n = 4 if tier == "thorough" else 3
    return [(x, y) for x in range(n) for y in range(n)]


def cases(tier):
    for name in LISTS:
        L = lattice(name, tier)
        for a in range(len(L)):
            for b in range(len(L)):
                yield dict(kind="assign", name=name, tier=tier, a=a, b=b)
    for name in list(meshes.closed()) + list(meshes.opened()):
        yield dict(kind="mesh", name=name)
    yield dict(kind="renderer")
    yield dict(kind="nonmanifold")


_cache = {}


def mesh(name, F, n, clockwise):
    if (name, clockwise) not in _cache:
        _cache[(name, clockwise)] = TriMesh(np.array(F), np.zeros((n, 3)), clockwise=clockwise)
    return _cache[(name, clockwise)]


def compare(r, m, P, F, clockwise, text):
    r.n += 1
    want, vis = expected(P, F, clockwise)
    A = np.array(P, dtype=np.float64)
    got = np.asarray(m.edge_on_silhouette(A))
    if got.shape != want.shape or not np.array_equal(got.astype(bool), want):
        r.bad("flags", "%s clockwise=%s points %s: flags %s expected %s" % (text, clockwise, list(map(tuple, A)), got.tolist(), want.tolist()))
    r.key(want.tobytes(), clockwise)
    return vis


def check(case):
    warnings.simplefilter("ignore")
    r = R()
    r.n = 0
    k = case["kind"]
    if k == "assign":
        F, n = LISTS[case["name"]]
        L = lattice(case["name"], case["tier"])
        for rest in itertools.product(L, repeat=n - 2):
            P = (L[case["a"]], L[case["b"]]) + rest
            for cw in (False, True):
                vis = compare(r, mesh(case["name"], F, n, cw), P, F, cw, case["name"])
                if not any(vis):
                    continue
                for s, t in ((2.0 ** -30, 0.0), (2.0 ** 24, 0.0), (1.0, 2.0 ** 22 + 0.5)):  # tiny, huge and far away: exact as well
                    compare(r, mesh(case["name"], F, n, cw), [(x * s + t, y * s - t) for x, y in P], F, cw, case["name"])
            if r.msgs:
                return r
    elif k == "mesh":
        V, F = {**meshes.closed(), **meshes.opened()}[case["name"]]
        for cw in (False, True):
            G = F[:, ::-1] if cw else F
            m = TriMesh(G, V, clockwise=cw)
            for d in itertools.product((-2, -1, 0.5, 1, 3), repeat=2):
                for e in ((1, 0, 0), (0, 1, 0), (0, 0.5, 1)):
                    M = np.array([[1, 0.25, d[0]], [d[1], e[0], e[1] + e[2]]])
                    P = np.round(V.dot(M.T) * 4096) / 4096
                    compare(r, m, P.tolist(), G.tolist(), cw, case["name"])
                    r.count("states")
    elif k == "renderer":
        # the facing rule is that of the renderer: a face is drawn under culling exactly if it is front facing
        from dlib import scene
        for t in itertools.permutations([(-2.25, -1.5), (9, -0.75), (0.5, 8), (7, 6.5)], 3):
            for cw in (False, True):
                for ipc in (False, True):
                    s = scene([(x + 3, y + 2) for x, y in t], [(0, 1, 2)], (1, 1, 1), width=13, height=12, clockwise=cw, integer_pixel_centers=ipc)
                    img, z = s.render(0)
                    vis = facing(t, [(0, 1, 2)], cw)[0]
                    fl = mesh("triangle", [(0, 1, 2)], 3, cw).edge_on_silhouette(np.array(t))
                    r.n += 1
                    r.key("renderer", t, cw)
                    if bool(np.isfinite(z).any()) != bool(vis) or bool(np.all(fl)) != bool(vis) or bool(np.any(fl)) != bool(vis):
                        r.bad("renderer", "triangle %s clockwise=%s: drawn %s, silhouette %s" % (t, cw, np.isfinite(z).any(), fl))
    else:
        for F in ([(0, 1, 2), (0, 1, 3)], [(0, 1, 2), (1, 0, 3), (0, 1, 4)], [(0, 1, 2), (0, 1, 2)]):
            m = TriMesh(np.array(F), np.zeros((5, 3)))
            r.n += 1
            r.key("nonmanifold", str(F))
            for P in itertools.product([(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (2.0, 2.5)], repeat=5):  # the adjacency itself follows the definition
                for cw in (False, True):
                    compare(r, TriMesh(np.array(F), np.zeros((5, 3)), clockwise=cw).adjacencies if (str(F), cw) not in _cache else _cache[(str(F), cw)], P, F, cw, "adjacency of %s" % F)
            try:
                m.edge_on_silhouette(np.zeros((5, 2)))
            except BaseException:
                continue
            r.bad("nonmanifold", "silhouette of the non manifold mesh %s accepted" % F)
    return r
