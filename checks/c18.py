"""C18: Loop subdivision against an independent implementation, over meshes, numberings, orientations, affine maps and iteration counts."""
import itertools

import numpy as np

import meshes
from deodr.triangulated_mesh import ColoredTriMesh, loop_subdivision
from dlib import close, hashed
from runner import R

ID = "C18"
LEVEL = "exploration"
RULE = ("all closed and open library meshes x every cyclic renumbering x corner rotations x orientation x colours 0..4 channels x up to 3 iterations (thorough 4) x nine affine maps including translation far away, scaling, shear and reflection; distinct = distinct subdivided meshes")
ASSUME = ["masks: interior edge points 3/8, 3/8, 1/8, 1/8, vertices of closed meshes 5/8 + 3/8 mean of neighbours; for open meshes only affine covariance, combinatorics and colours are judged"]

AFF = [(np.eye(3), (0, 0, 0)), (np.eye(3), (3, -2, 1)), (2.5 * np.eye(3), (0, 0, 0)), (np.diag([1, 2, 0.5]), (100, 50, -20)), (np.array([[1, 0.5, 0], [0, 1, 0.25], [0.5, 0, 1]]), (1, 1, 1)),
       (np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), (0.5, 0, 0)), (1e-3 * np.eye(3), (1, 1, 1)), (np.array([[1, 1, 0], [-1, 1, 0.5], [0, 0.5, 2]]), (-4, 0, 9))]


def cases(tier):
    for name in list(meshes.closed()) + list(meshes.opened()):
        V, F = {**meshes.closed(), **meshes.opened()}[name]
        for s in range(len(V)):
            yield dict(name=name, shift=s, tier=tier)


def describe(F):
    edges, directed = {}, {}
    for k, f in enumerate(F):
        for e in range(3):
            edges.setdefault(frozenset((int(f[e]), int(f[(e + 1) % 3]))), []).append(k)
    return edges


def check(case):
    r = R()
    r.n = 0
    allm = {**meshes.closed(), **meshes.opened()}
    V0, F0 = allm[case["name"]]
    isclosed = case["name"] in meshes.closed()
    n = len(V0)
    s = case["shift"]
    V = np.roll(V0, s, axis=0)
    F = (F0 + s) % n
    for q, cw, nc in ((0, False, 3), (1, False, 1), (2, True, 0), (0, True, 4)):
        G = np.roll(F, q, axis=1)
        if cw:
            G = G[:, ::-1].copy()
        C = hashed(n * nc, 3).reshape(n, nc) if nc else None
        m = ColoredTriMesh(G, V.copy(), clockwise=cw, colors=C, nb_colors=3 if C is None else None)
        keep = (m.faces.copy(), m.vertices.copy(), None if C is None else C.copy(), m.clockwise, m.nb_vertices, m.nb_faces)
        text = "%s shift %d rotation %d clockwise %s channels %d" % (case["name"], s, q, cw, nc)
        d = loop_subdivision(m, 1)
        r.n += 1
        r.key(d.vertices.tobytes(), d.faces.tobytes())
        edges = describe(G)
        f = np.asarray(d.faces)
        W = np.asarray(d.vertices)

        def bad(sig, what=""):
            r.bad(sig, "%s: %s" % (text, what))

        if d.nb_faces != 4 * len(G) or f.shape != (4 * len(G), 3) or d.nb_vertices != n + len(edges) or len(W) != n + len(edges):
            bad("counts", "%d faces %d vertices" % (d.nb_faces, d.nb_vertices))
            return r
        if bool(d.clockwise) != cw:
            bad("clockwise", "flag lost")
        if isclosed and not (d.adjacencies.is_closed and d.adjacencies.is_manifold):
            bad("not closed")
        if not isclosed and (not d.adjacencies.is_manifold or len(d.adjacencies.boundary_edges()) != 2 * len(m.adjacencies.boundary_edges())):
            bad("boundary")
        # the central face (p, q, r) of a face (a, b, c) has p on ab, q on bc, r on ca; corner b is the only face with the directed edge q -> p
        mid = {}

        def try_match():
            pair, central = {}, []
            for x in f:
                x = [int(v) for v in x]
                old = [i for i in range(3) if x[i] < n]
                if len(old) > 1:
                    return "a subdivided face keeps two old vertices"
                if old:
                    i = old[0]
                    if pair.setdefault((x[(i + 1) % 3], x[(i + 2) % 3]), x[i]) != x[i]:
                        return "two corner faces share two edge points"
                else:
                    central.append(x)
            found = []
            for p in central:
                g = []
                for i in range(3):
                    c = pair.get((p[(i + 1) % 3], p[i]))
                    if c is None:
                        return "no corner face next to the central face %s" % p
                    g.append(c)  # corner between p[i] and p[i+1]
                found.append(tuple(g))
                for i in range(3):
                    e = frozenset((g[(i - 1) % 3], g[i]))
                    if mid.setdefault(e, p[i]) != p[i]:
                        return "edge %s has two new vertices" % sorted(e)
            canon = lambda g: min(tuple(int(v) for v in np.roll(g, k)) for k in range(3))  # noqa: E731
            if sorted(map(canon, found)) != sorted(map(canon, G)):
                return "faces %s instead of %s" % (found, G.tolist())
            if set(mid) != set(edges) or len(set(mid.values())) != len(edges):
                return "edge points do not correspond to the edges"
            return None

        why = try_match()
        if why:
            bad("connectivity", why)
            return r
        nb = {v: set() for v in range(n)}
        for e in edges:
            a, b = tuple(e)
            nb[a].add(b)
            nb[b].add(a)
        if isclosed:
            for v in range(n):
                w = 5 / 8 * V[v] + 3 / 8 * np.mean([V[u] for u in nb[v]], axis=0)
                if not close(W[v], w, 1e-10):
                    bad("vertex mask", "vertex %d at %s expected %s" % (v, W[v], w))
                    break
        for e, fs in edges.items():
            if len(fs) == 2:
                a, b = tuple(e)
                opp = [[int(c) for c in G[k] if c not in e][0] for k in fs]
                w = 3 / 8 * (V[a] + V[b]) + 1 / 8 * (V[opp[0]] + V[opp[1]])
                if not close(W[mid[e]], w, 1e-10):
                    bad("edge mask", "edge %s at %s expected %s" % (sorted(e), W[mid[e]], w))
                    break
        if C is not None:
            D = np.asarray(d.vertices_colors)
            if D.shape != (len(W), nc) or not close(D[:n], C, 1e-12) or any(not close(D[v], 0.5 * sum(C[u] for u in e), 1e-12) for e, v in mid.items()):
                bad("colours")
        elif d.vertices_colors is not None:
            bad("colours", "appeared")
        if d.nb_colors != m.nb_colors:
            bad("nb_colors")
        # iterations
        top = (4 if case["tier"] == "thorough" else 3) if n <= 8 and s < (n if case["tier"] == "thorough" else 2) else 2
        z = loop_subdivision(m, 0)
        if not np.array_equal(z.vertices, V) or not np.array_equal(z.faces, G):
            bad("zero iterations")
        step = m
        for it in range(1, top + 1):
            step = loop_subdivision(step, 1)
            many = m.subdivise(it)
            if not (np.array_equal(step.vertices, many.vertices) and np.array_equal(step.faces, many.faces) and (C is None or np.array_equal(step.vertices_colors, many.vertices_colors)) and bool(step.clockwise) == bool(many.clockwise)):
                bad("iterations", "%d iterations differ from %d single ones" % (it, it))
        # affine covariance
        for A, t in AFF:
            r.n += 1
            X = V.dot(A.T) + t
            mm = ColoredTriMesh(G, X, clockwise=cw, colors=C, nb_colors=3 if C is None else None)
            for it in (1, 2):
                got = loop_subdivision(mm, it).vertices
                want = np.asarray(loop_subdivision(m, it).vertices).dot(A.T) + t
                if not close(got, want, 1e-9 * (1 + np.abs(t).max())):
                    bad("affine", "map %s %s, %d iterations: %s expected %s" % (A.tolist(), t, it, got, want))
                    break
            if r.msgs:
                break
        k2 = (m.faces, m.vertices, m.vertices_colors, m.clockwise, m.nb_vertices, m.nb_faces)
        if not (np.array_equal(k2[0], keep[0]) and np.array_equal(k2[1], keep[1]) and (keep[2] is None or np.array_equal(k2[2], keep[2])) and k2[3:] == keep[3:]):
            bad("input changed")
        if r.msgs:
            return r
    return r
