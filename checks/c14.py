"""C14: adjacency structures against their set-theoretic definitions on every small face list."""
import itertools

import numpy as np

import meshes
from deodr.triangulated_mesh import TriMesh, TriMeshAdjacencies
from runner import R

ID = "C14"
LEVEL = "exploration"
RULE = ("every list of 1, 2 (5 vertices) and 3 (4 vertices; thorough: 5 vertices) oriented triangles, repeated triangles and unreferenced vertices included, every subset of the faces of the tetrahedron, octahedron and bipyramid with every face flip pattern of up to four faces, "
        "and all library meshes under all cyclic renumberings; library meshes renumbered into up to 200000 vertices, at both ends of the range and so that edge codes max + n min and min + n max of different edges coincide modulo 2^16, 2^31 and 2^32; index types int64, int32, uint32; distinct = distinct face lists up to nothing")
TYPES = (np.int64, np.int32, np.uint32)


def tris(n):
    return list(itertools.permutations(range(n), 3))


def cases(tier):
    T5 = tris(5)
    T4 = tris(4)
    for i in range(len(T5)):
        yield dict(kind="two", i=i)
    T = T5 if tier == "thorough" else T4
    for i, j in itertools.product(range(len(T)), repeat=2):
        yield dict(kind="three", n=5 if tier == "thorough" else 4, i=i, j=j)
    for name in ("tetra", "octa", "bipyr3"):
        yield dict(kind="subsets", name=name)
    for name in list(meshes.closed()) + list(meshes.opened()):
        yield dict(kind="mesh", name=name)
        for n in (300, 66000, 70000, 100003, 200000):
            yield dict(kind="large", name=name, n=n)


def reference(F, n, matrix=True):
    """Brute force: dictionaries over the face list."""
    inc = {}
    directed = {}
    for k, f in enumerate(F):
        for a, b in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0])):
            inc.setdefault(frozenset((a, b)), []).append(k)
            directed[(a, b)] = directed.get((a, b), 0) + 1
    manifold = all(len(v) <= 2 for v in inc.values()) and all(v <= 1 for v in directed.values())
    closed = manifold and all(len(v) == 2 for v in inc.values())
    boundary = {e for e, v in inc.items() if len(v) == 1}
    adj = np.zeros((n, n))
    for e in inc if matrix else ():
        a, b = tuple(e)
        adj[a, b] = adj[b, a] = 1
    return inc, manifold, closed, boundary, adj


def verify(r, F, n, dtype=np.int64, give_n=True):
    F = [tuple(int(x) for x in f) for f in F]
    r.n += 1
    inc, manifold, closed, boundary, adj = reference(F, n)
    A = np.array(F, dtype=dtype)
    keep = A.copy()
    t = TriMeshAdjacencies(A, nb_vertices=n if give_n else None)
    text = "faces %s vertices %d type %s" % (F, n, np.dtype(dtype).name)

    def bad(sig, what):
        r.bad(sig, "%s: %s" % (text, what))

    if not np.array_equal(A, keep):
        bad("mutated", "face list modified")
    if t.nb_faces != len(F) or t.nb_vertices != n or t.nb_edges != len(inc):
        bad("counts", "faces %s vertices %s edges %s, expected %s" % (t.nb_faces, t.nb_vertices, t.nb_edges, (len(F), n, len(inc))))
        return
    E = [frozenset(int(x) for x in e) for e in np.asarray(t.edges)]
    if len(set(E)) != len(E) or set(E) != set(inc):
        bad("edges", "edges %s expected %s" % (E, set(inc)))
        return
    fe = np.asarray(t.faces_edges)
    for k, f in enumerate(F):
        for c in range(3):
            if E[int(fe[k, c])] != frozenset((f[c], f[(c + 1) % 3])):
                bad("faces_edges", "face %d edge %d is %s" % (k, c, sorted(E[int(fe[k, c])])))
    ef = np.asarray(t.edges_faces_ones.todense())
    ev = np.asarray(t.edges_vertices_ones.todense())
    for m, e in enumerate(E):
        want = np.zeros(len(F))
        for k in inc[e]:
            want[k] += 1
        if not np.array_equal(ef[m], want):
            bad("edges_faces", "edge %s faces %s" % (sorted(e), ef[m]))
        if set(np.nonzero(ev[m])[0]) != set(e):
            bad("edges_vertices", "edge %s vertices %s" % (sorted(e), ev[m]))
    vf = getattr(t, "_vertices_faces", None)  # internal: seen through degree_v_f and the normals when it is renamed
    want = np.zeros((n, len(F)))
    for k, f in enumerate(F):
        for v in f:
            want[v, k] += 1
    if vf is not None and not np.array_equal(np.asarray(vf.todense()), want):
        bad("vertices_faces", np.asarray(vf.todense()))
    if not np.array_equal(np.asarray(t.degree_v_f).ravel(), want.sum(1)):
        bad("degree_v_f", t.degree_v_f)
    av = np.asarray(t.adjacency_vertices.todense()).astype(float)
    if not np.array_equal(av, adj):
        bad("adjacency", av)
    if not np.array_equal(np.asarray(t.degree_v_e).ravel(), adj.sum(1)):
        bad("degree_v_e", t.degree_v_e)
    L = np.asarray(t.laplacian.todense())
    if not np.array_equal(L, np.diag(adj.sum(1)) - adj) or (L.dot(np.ones(n)) != 0).any():
        bad("laplacian", L)
    if bool(t.is_manifold) != manifold:
        bad("is_manifold", "%s expected %s" % (t.is_manifold, manifold))
    if bool(t.is_closed) != closed:
        bad("is_closed", "%s expected %s" % (t.is_closed, closed))
    if bool(t.hasBoundaries) != bool(boundary):
        bad("hasBoundaries", "%s expected %s" % (t.hasBoundaries, bool(boundary)))
    b = [frozenset(int(x) for x in e) for e in t.boundary_edges()]
    if len(set(b)) != len(b) or set(b) != boundary:
        bad("boundary_edges", "%s expected %s" % (b, boundary))
    r.key(tuple(F), n)


def colliding(n, mod, high_first):
    """Two different edges with the same code modulo mod (None if there are none)."""
    for k in range(1, n):
        delta = k * n % mod
        for d in (delta, delta - mod):
            # codes hi*? : p + q n with q2 = q1 + k, p1 = p2 + d
            if abs(d) >= n - k - 2 or d == 0:
                continue
            for q1 in (0, 1, 7, (n - k) // 2):
                q2 = q1 + k
                p2 = max(0, -d) if high_first else 0
                if high_first:  # p the maximum, q the minimum
                    p2 = max(q2 + 1, q1 + 1 - d, -d)
                else:  # p the minimum
                    p2 = max(0, -d)
                p1 = p2 + d
                if not (0 <= p1 < n and 0 <= p2 < n and q2 < n) or len({p1, p2, q1, q2}) < 4:
                    continue
                if high_first and not (p1 > q1 and p2 > q2) or not high_first and not (p1 < q1 and p2 < q2):
                    continue
                assert (p1 + q1 * n - p2 - q2 * n) % mod == 0
                return (p1, q1), (p2, q2)
    return None


def verify_large(r, F, n, dtype):
    """As verify, through sparse matrices."""
    F = [tuple(int(x) for x in f) for f in F]
    r.n += 1
    text = "faces %s vertices %d type %s" % (F, n, np.dtype(dtype).name)

    def bad(sig, what):
        r.bad("large:" + sig, "%s: %s" % (text, what))

    inc, manifold, closed, boundary, _ = reference(F, 0, matrix=False)
    t = TriMeshAdjacencies(np.array(F, dtype=dtype), nb_vertices=n)
    E = [frozenset(int(x) for x in e) for e in np.asarray(t.edges)]
    if len(set(E)) != len(E) or set(E) != set(inc) or t.nb_edges != len(inc):
        bad("edges", "edges %s expected %s" % (E, set(inc)))
        return
    fe = np.asarray(t.faces_edges)
    for k, f in enumerate(F):
        for c in range(3):
            if E[int(fe[k, c])] != frozenset((f[c], f[(c + 1) % 3])):
                bad("faces_edges", "face %d edge %d is %s" % (k, c, sorted(E[int(fe[k, c])])))

    def entries(m):
        m = m.tocoo()
        d = {}
        for i, j, v in zip(m.row, m.col, m.data):
            d[(int(i), int(j))] = d.get((int(i), int(j)), 0) + float(v)
        return {k: v for k, v in d.items() if v}

    nb = {}
    for e in inc:
        a, b = tuple(e)
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
    adj = {(a, b): 1.0 for a in nb for b in nb[a]}
    if t.adjacency_vertices.shape != (n, n) or entries(t.adjacency_vertices) != adj:
        bad("adjacency", "wrong entries")
    lap = {k: -1.0 for k in adj}
    lap.update({(a, a): float(len(nb[a])) for a in nb})
    if t.laplacian.shape != (n, n) or entries(t.laplacian) != lap:
        bad("laplacian", "wrong entries")
    deg = np.asarray(t.degree_v_e).ravel()
    if len(deg) != n or {int(i): int(deg[i]) for i in np.nonzero(deg)[0]} != {a: len(nb[a]) for a in nb}:
        bad("degree_v_e", "wrong")
    want = {}
    for f in F:
        for v in f:
            want[v] = want.get(v, 0) + 1
    deg = np.asarray(t.degree_v_f).ravel()
    if len(deg) != n or {int(i): int(deg[i]) for i in np.nonzero(deg)[0]} != want:
        bad("degree_v_f", "wrong")
    if bool(t.is_manifold) != manifold or bool(t.is_closed) != closed or bool(t.hasBoundaries) != bool(boundary):
        bad("predicates", "manifold %s closed %s boundaries %s" % (t.is_manifold, t.is_closed, t.hasBoundaries))
    b = [frozenset(int(x) for x in e) for e in t.boundary_edges()]
    if len(set(b)) != len(b) or set(b) != boundary:
        bad("boundary_edges", "%s expected %s" % (b, boundary))
    r.key(tuple(F), n)


def check(case):
    r = R()
    r.n = 0
    k = case["kind"]
    if k == "two":
        T = tris(5)
        a = T[case["i"]]
        n = max(a) + 1
        verify(r, [a], n, give_n=False)
        verify(r, [a], 6, np.uint32)
        for m, b in enumerate(T):
            n = max(a + b) + 1
            verify(r, [a, b], n, TYPES[m % 3], give_n=bool(m % 2))
            verify(r, [a, b], 5 + m % 3, TYPES[(m + 1) % 3])
            if r.msgs:
                return r
    elif k == "three":
        T = tris(case["n"])
        for m, c in enumerate(T):
            verify(r, [T[case["i"]], T[case["j"]], c], case["n"] + m % 2, TYPES[m % 3])
            if r.msgs:
                return r
    elif k == "subsets":
        V, F = meshes.closed()[case["name"]]
        for bits in range(1, 2 ** len(F)):
            sub = [tuple(F[i]) for i in range(len(F)) if bits >> i & 1]
            for flip in itertools.combinations(range(len(sub)), 0 if len(sub) > 6 else min(2, len(sub))):
                fl = [f[::-1] if i in flip else f for i, f in enumerate(sub)]
                verify(r, fl, len(V))
            verify(r, sub, len(V))
            for i in range(min(4, len(sub))):
                verify(r, [f[::-1] if j == i else f for j, f in enumerate(sub)], len(V))
            if r.msgs:
                return r
    elif k == "large":
        V, F = {**meshes.closed(), **meshes.opened()}[case["name"]]
        F = np.asarray(F)
        n, v = case["n"], len(V)
        labels = [np.arange(v), n - 1 - np.arange(v), np.arange(v) + n // 2, np.arange(v) * ((n - 1) // max(1, v - 1)), np.where(np.arange(v) % 2, np.arange(v), n - 1 - np.arange(v))]
        for mod in (2 ** 16, 2 ** 31, 2 ** 32):
            for high in (True, False):
                e = colliding(n, mod, high)
                if e is None:
                    continue
                r.count("collisions")
                # first face and the first face sharing no vertex with it, or no second edge of it
                f, rest = F[0], []
                for g in F[1:]:
                    rest = [int(x) for x in g if x not in f]
                    if len(rest) >= 2 or (len(rest) == 1 and len(F) > 1):
                        break
                second = rest if len(rest) >= 2 else None
                if second is None:
                    # two separate triangles instead
                    a, b = e
                    free = [x for x in range(n - 8, n) if x not in a + b]
                    verify_large(r, [a + (free[0],), b[::-1] + (free[1],)], n, np.int64)
                    continue
                L = np.full(v, -1)
                L[[f[0], f[1]]] = e[0]
                L[[second[0], second[1]]] = e[1]
                free = iter(x for x in range(n) if x not in e[0] + e[1])
                labels.append(np.array([x if x >= 0 else next(free) for x in L]))
        for m, L in enumerate(labels):
            if len(set(L.tolist())) == v:
                verify_large(r, L[F], n, TYPES[m % 3])
                verify_large(r, L[F][:, ::-1], n, TYPES[(m + 1) % 3])
    else:
        V, F = {**meshes.closed(), **meshes.opened()}[case["name"]]
        n = len(V)
        for s in range(n):
            for q in range(4):
                G = (F + s) % n
                G = np.roll(G, q, axis=0 if q % 2 else 1)
                if q == 3:
                    G = G[:, ::-1]
                verify(r, G, n, TYPES[(s + q) % 3])
        m = TriMesh(F, V)
        if m.nb_faces != len(F) or m.nb_vertices != n or m.adjacencies.nb_edges != len(reference(F, n)[0]):
            r.bad("TriMesh", "counts of the mesh")
    return r
