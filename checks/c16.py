"""C16: normals and their back-propagation against an independent formula and its complex-step derivative, over meshes, deformations and histories."""
import itertools

import numpy as np

import meshes
from deodr.triangulated_mesh import ColoredTriMesh, TriMesh
from dlib import close, hashed, vb
from runner import R

ID = "C16"
LEVEL = "exploration"
RULE = ("all library meshes x both orientations x deformations of the vertices x every unit vertex-normal adjoint component (three components at each vertex) and dense adjoints; "
        "every order of up to four calls of {set vertices A, set vertices B, overwrite a kept array with A or B and set it, read normals, back-propagate, read face normals} from a state graph whose states are compared with the definition; distinct = distinct normals/gradients")
ASSUME = ["faces with non-zero area; vertices that belong to at least one face"]


def deformations(V):
    yield V
    yield V * [2, 0.5, -1.5] + [1, 2, 3]
    yield V + 0.25 * hashed(V.size, 5).reshape(V.shape)
    yield V[:, [1, 2, 0]] * 3e-3
    yield 1e3 * V + 1e4


def cases(tier):
    for name in list(meshes.closed()) + list(meshes.opened()):
        for cw in (False, True):
            for d in range(5):
                yield dict(kind="gradient", name=name, cw=cw, d=d)
    for name in ("tetra", "strip2", "fan3"):
        for cw in (False, True):
            for first in range(len(OPS)):
                yield dict(kind="history", name=name, cw=cw, first=first, depth=5 if tier == "thorough" else 4)


OPS = ("setA", "setB", "inA", "inB", "normals", "faces", "back1", "back2")


def get(name, cw):
    V, F = {**meshes.closed(), **meshes.opened()}[name]
    return V, (F[:, ::-1].copy() if cw else F)


def make(V, F, cw):
    m = TriMesh(F, np.array(V), clockwise=cw, compute_adjacencies=False)
    if not hasattr(m, "_adjacencies"):
        m.compute_adjacencies()
        return m
    from deodr.triangulated_mesh import TriMeshAdjacencies
    m._adjacencies = TriMeshAdjacencies(F, cw, nb_vertices=len(V))  # mirrored deformations are not outward oriented
    return m


def vjp(V, F, cw, b):
    out = np.zeros_like(V)
    for i in range(V.shape[0]):
        for k in range(3):
            W = V.astype(complex)
            W[i, k] += 1e-30j
            out[i, k] = (meshes.vertex_normals(W, F, cw).imag * b).sum() / 1e-30
    return out


def jac(V, F, cw):
    """d normals[j] / d V[i,k] as array (i, k, j, c)."""
    out = np.zeros(V.shape + V.shape)
    for i in range(V.shape[0]):
        for k in range(3):
            W = V.astype(complex)
            W[i, k] += 1e-30j
            out[i, k] = meshes.vertex_normals(W, F, cw).imag / 1e-30
    return out


def check(case):
    r = R()
    r.n = 0
    V0, F = get(case["name"], case["cw"])
    cw = case["cw"]
    if case["kind"] == "gradient":
        V = list(deformations(V0))[case["d"]]
        m = make(V, F, cw)
        text = str(case)
        fn, vn = meshes.face_normals(V, F, cw), meshes.vertex_normals(V, F, cw)
        tol = 1e-6 if case["d"] == 4 else 1e-9
        r.key(np.round(vn, 6).tobytes())
        if not close(m.face_normals, fn, tol):
            r.bad("face normals", "%s: %s expected %s" % (text, m.face_normals, fn))
        if not close(m.vertex_normals, vn, tol):
            r.bad("vertex normals", "%s: %s expected %s" % (text, m.vertex_normals, vn))
        if not r.msgs:
            J = jac(V, F, cw)
            n = len(V)
            total = np.zeros((n, 3))
            scale = 1 + np.abs(J).max()
            adjs = []
            for j in range(n):
                for c in range(3):
                    b = np.zeros((n, 3))
                    b[j, c] = 1.0
                    adjs.append(b)
            adjs += [hashed(3 * n, 7).reshape(n, 3) - 0.5, np.ones((n, 3)), 3.0 * vn]
            for b in adjs:
                r.n += 1
                keep = b.copy()
                m.compute_vertex_normals_backward(b)
                total += np.einsum("ikjc,jc->ik", J, b)
                r.key(np.round(vb(m), 6).tobytes())
                if not close(vb(m) / scale, total / scale, tol * 10):
                    r.bad("gradient", "%s adjoint %s: accumulated gradient %s expected %s" % (text, b.tolist(), vb(m), total))
                    break
                if not np.array_equal(b, keep):
                    r.bad("mutated", text)
        if not np.array_equal(V, list(deformations(V0))[case["d"]]):
            r.bad("mutated vertices", text)
    else:
        A = V0
        B = V0 * [2, 0.5, 1.5] + 0.25 * hashed(V0.size, 5).reshape(V0.shape)
        n = len(A)
        adj = [hashed(3 * n, 7).reshape(n, 3) - 0.5, hashed(3 * n, 9).reshape(n, 3)]
        G = {(w, a): vjp(X, F, cw, adj[a]) for w, X in (("A", A), ("B", B)) for a in (0, 1)}
        VN = {w: meshes.vertex_normals(X, F, cw) for w, X in (("A", A), ("B", B))}
        FN = {w: meshes.face_normals(X, F, cw) for w, X in (("A", A), ("B", B))}
        for rest in itertools.product(range(len(OPS)), repeat=case["depth"] - 1):
            word = (case["first"],) + rest
            X = np.array(A)  # an array kept by the caller, rewritten in place by inA/inB and set again
            m = make(A, F, cw)
            cur, fresh, acc = "A", False, np.zeros((n, 3))
            for o in word:
                op = OPS[o]
                r.count("transitions")
                if op in ("setA", "setB", "inA", "inB"):
                    cur = op[-1]
                    if op[0] == "s":
                        m.set_vertices((A if cur == "A" else B).copy())
                    else:
                        X[...] = A if cur == "A" else B
                        m.set_vertices(X)
                    fresh, acc = False, np.zeros((n, 3))
                elif op == "normals":
                    fresh = True
                    if not close(m.vertex_normals, VN[cur], 1e-9):
                        r.bad("stale normals", "%s history %s: vertex normals are not those of the current vertices" % (case, [OPS[q] for q in word]))
                elif op == "faces":
                    if not close(m.face_normals, FN[cur], 1e-9):
                        r.bad("stale face normals", "%s history %s" % (case, [OPS[q] for q in word]))
                else:
                    if not fresh:  # the gradient belongs to the normals computed last
                        m.vertex_normals
                        fresh = True
                    a = int(op[-1]) - 1
                    m.compute_vertex_normals_backward(adj[a].copy())
                    acc = acc + G[(cur, a)]
                if not close(vb(m), acc, 1e-8):
                    r.bad("history gradient", "%s history %s: gradient %s expected %s" % (case, [OPS[q] for q in word], vb(m), acc))
                if r.msgs:
                    return r
            r.n += 1
            r.key(word, case["name"], cw)
    return r
