"""C17: enclosed volume, orientation check and lazy adjacency over closed meshes, rigid motions and rewritings."""
import itertools

import numpy as np

import meshes
from deodr.triangulated_mesh import ColoredTriMesh, TriMesh
from dlib import close, rotations24, rational_rotations
from runner import R

ID = "C17"
LEVEL = "exploration"
RULE = ("all closed library meshes x 24 cube rotations and all integer-quaternion rotations x translations and sizes from 1e-8 to 1e6 x corner rotations/face orders x both orientations x both clockwise flags x eager and lazy adjacency; "
        "every subset of flipped faces of the tetrahedron and octahedron (only consistently oriented ones are closed manifolds); every open mesh; sequences of queries on lazy meshes compared with eager ones; distinct = distinct (mesh, motion) volumes and outcomes")
ASSUME = ["volumes are compared with relative tolerance 1e-9 and outcomes are only judged for volumes away from rounding of zero"]


def cases(tier):
    for name in meshes.closed():
        for k in range(24 + (len(rational_rotations(1)))):
            yield dict(kind="motion", name=name, k=k)
    for name in ("tetra", "octa", "bipyr3"):
        for lo in range(0, 2 ** len(meshes.closed()[name][1]), 32):
            yield dict(kind="flip", name=name, lo=lo)
    for name in meshes.opened():
        yield dict(kind="open", name=name)
    for name in ("tetra", "strip2", "fan3", "cube"):
        for first in range(len(QUERIES)):
            yield dict(kind="lazy", name=name, first=first)


QUERIES = ("volume", "adjacencies", "face_normals", "vertex_normals", "silhouette", "set_vertices", "check_orientation", "subdivise")


def build(F, V, cw, lazy, colored):
    if colored:
        return ColoredTriMesh(F, V, clockwise=cw, colors=np.zeros((len(V), 2)), compute_adjacencies=not lazy)
    return TriMesh(F, V, clockwise=cw, compute_adjacencies=not lazy)


def outcome(f):
    try:
        return f()
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        return type(e)


def check(case):
    r = R()
    r.n = 0
    k = case["kind"]
    if k == "motion":
        V, F = meshes.closed()[case["name"]]
        vol1 = meshes.signed_volume(V, F)
        rot = (rotations24() + [m for _, m in rational_rotations(1)])[case["k"]]
        for size, t in ((1, (0, 0, 0)), (1, (1.5, -2, 0.25)), (1, (-30, 20, 10)), (1e-1, (0.5, 0, -0.25)), (1e-2, (0, 0, 0)), (1e-3, (0.5, 1, -2)), (1e-5, (0, 1, 0)), (1e-8, (0, 0, 0)), (1e3, (-1, 0, 2)), (1e6, (0, 0, 0))):
            W = (V.dot(rot.T) + t) * size
            vol = vol1 * size**3
            for q, rev, cw in itertools.product(range(4), (0, 1), (False, True)):
                G = np.roll(F, q, axis=0 if q % 2 else 1)
                if q == 3:
                    G = np.roll(G, 1, axis=1)
                if rev:
                    G = G[:, ::-1]
                want = vol * (-1 if rev else 1) * (-1 if cw else 1)
                for lazy, colored in ((0, q % 2), (1, 1 - q % 2)):
                    r.n += 1
                    text = "%s size %s translation %s reversed %s clockwise %s lazy %s" % (case, size, t, rev, cw, lazy)
                    m = outcome(lambda: build(G, W, cw, lazy, colored))
                    if isinstance(m, type):
                        if lazy or want > 0:
                            r.bad("rejected", "%s: construction raised %s for volume %s" % (text, m, want))
                        continue
                    if not lazy and want < 0:
                        r.bad("accepted", "%s: mesh with volume %s accepted" % (text, want))
                    if lazy and want < 0:
                        if not isinstance(outcome(lambda: m.adjacencies), type):
                            r.bad("accepted", "%s: adjacency of a mesh with volume %s accepted" % (text, want))
                        continue
                    v = m.compute_volume()
                    r.key(case["name"], round(v / size**3, 6), case["k"], size, t)
                    if not abs(v - want) <= 1e-9 * (size**3 + abs(want)) * (1 + np.abs(W / size).max() ** 3):
                        r.bad("volume", "%s: %s expected %s" % (text, v, want))
                if r.msgs:
                    return r
    elif k == "flip":
        V, F = meshes.closed()[case["name"]]
        vol = meshes.signed_volume(V, F)
        n = len(F)
        for bits in range(case["lo"], min(case["lo"] + 32, 2 ** n)):
            G = np.array([f[::-1] if bits >> i & 1 else f for i, f in enumerate(F)])
            for cw in (False, True):
                r.n += 1
                m = outcome(lambda: TriMesh(G, V, clockwise=cw))
                consistent = bits in (0, 2 ** n - 1)
                want = vol * (-1 if bits else 1) * (-1 if cw else 1)
                r.key(case["name"], bits, cw)
                if consistent:
                    if isinstance(m, type) != (want < 0):
                        r.bad("orientation", "%s flips %s clockwise %s: construction gave %s for volume %s" % (case, bin(bits), cw, m, want))
                else:
                    if isinstance(m, type):
                        r.bad("inconsistent", "%s flips %s: construction raised" % (case, bin(bits)))
                    elif not isinstance(outcome(m.compute_volume), type):
                        r.bad("volume of non manifold", "%s flips %s: volume computed" % (case, bin(bits)))
    elif k == "open":
        V, F = meshes.opened()[case["name"]]
        for cw, rev, lazy in itertools.product((False, True), (0, 1), (0, 1)):
            G = F[:, ::-1] if rev else F
            r.n += 1
            r.key(case["name"], cw, rev, lazy)
            m = build(G, V, cw, lazy, False)
            if not isinstance(outcome(m.compute_volume), type):
                r.bad("volume of open mesh", "%s: volume of an open mesh computed" % case)
            m.adjacencies
    else:
        V, F = {**meshes.closed(), **meshes.opened()}[case["name"]]
        for rest in itertools.product(range(len(QUERIES)), repeat=2):
            word = (case["first"],) + rest
            a = build(F, V, False, False, True)
            b = build(F, V, False, True, True)
            for o in word:
                q = QUERIES[o]
                f = {"volume": lambda m: m.compute_volume(), "adjacencies": lambda m: np.asarray(m.adjacencies.laplacian.todense()), "face_normals": lambda m: m.face_normals,
                     "vertex_normals": lambda m: m.vertex_normals, "silhouette": lambda m: np.asarray(m.edge_on_silhouette(m.vertices[:, :2])),
                     "set_vertices": lambda m: m.set_vertices(m.vertices * [1.5, 1, 1] + 0.25), "check_orientation": lambda m: m.check_orientation(), "subdivise": lambda m: m.subdivise(1).vertices}[q]
                x, y = outcome(lambda: f(a)), outcome(lambda: f(b))
                r.count("transitions")
                if isinstance(x, type) or isinstance(y, type) or x is None:
                    same = x is y
                else:
                    same = np.array_equal(x, y)
                if not same:
                    r.bad("lazy", "%s after %s: the mesh with lazy adjacency gives %s for %s instead of %s" % (case["name"], [QUERIES[w] for w in word], y, q, x))
                    return r
            r.n += 1
            r.key("lazy", case["name"], word)
    return r
