"""C19: rigid energy against dense linear algebra, over meshes, references, displacements and weights, NumPy and PyTorch."""
import itertools

import numpy as np
import torch

import meshes
from c14 import reference
from deodr.laplacian_rigid_energy import LaplacianRigidEnergy
from deodr.pytorch.laplacian_rigid_energy_pytorch import LaplacianRigidEnergyPytorch
from deodr.pytorch.triangulated_mesh_pytorch import ColoredTriMeshPytorch
from deodr.triangulated_mesh import ColoredTriMesh
from dlib import close, hashed
from runner import R

torch.set_num_threads(1)
ID = "C19"
LEVEL = "exploration"
RULE = ("all library meshes and every connected or disconnected list of one to three oriented triangles on five vertices (up to the first vertex being used) x weights x every unit displacement and dense displacements x memory layouts x NumPy / PyTorch with and without autograd; "
        "histories in which the caller changes the arrays given earlier; distinct = distinct (mesh, displacement) energies")


def cases(tier):
    for name in list(meshes.closed()) + list(meshes.opened()):
        yield dict(kind="mesh", name=name)
    T = [t for t in itertools.combinations(range(5), 3)]
    for i, j in itertools.product(range(len(T)), repeat=2):
        yield dict(kind="list", i=i, j=j)


def connected(F, n):
    g = list(range(n))
    for f in F:
        m = min(g[v] for v in f)
        old = {g[v] for v in f}
        g = [m if x in old else x for x in g]
    return len(set(g)) == 1


def raised(f):
    try:
        f()
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException:
        return True
    return False


def layouts(x):
    """The same vertices in column order, as a slice of a larger array and in reversed memory order."""
    big = np.full((2 * len(x), 5), 7.0)
    big[::2, 1:4] = x
    return ("column ordered", np.asfortranarray(x)), ("sliced", big[::2, 1:4]), ("reversed", x[::-1].copy()[::-1])


def energy(r, F, V, text, full):
    n = len(V)
    r.n += 1
    mesh = ColoredTriMesh(np.array(F), V.copy(), colors=np.zeros((n, 1)), compute_adjacencies=False)
    try:
        mesh.adjacencies
    except BaseException:  # wrongly oriented closed list: use the mirrored orientation
        F = np.array(F)[:, ::-1].copy()
        mesh = ColoredTriMesh(F, V.copy(), colors=np.zeros((n, 1)))
    if not connected(F, n):
        if not raised(lambda: LaplacianRigidEnergy(mesh, V, 2.0)):
            r.bad("components", "%s: several components accepted" % text)
        pm = None
        try:
            pm = ColoredTriMeshPytorch(np.array(F, dtype=np.int64), V.copy(), colors=np.zeros((n, 1)))
        except BaseException:
            pass
        if pm is not None and not raised(lambda: LaplacianRigidEnergyPytorch(pm, V, 2.0)):
            r.bad("components torch", "%s: several components accepted" % text)
        r.key("disconnected", text)
        return
    adj = reference([tuple(int(x) for x in f) for f in F], n)[4]
    L = np.diag(adj.sum(1)) - adj
    LL = np.kron(L.T.dot(L), np.eye(3))
    for cregu in (0.0, 1.0, 350.5):
        ref = V + 0.25 * hashed(3 * n, 2).reshape(n, 3)
        refc = ref.copy()
        e = LaplacianRigidEnergy(mesh, ref, cregu)
        pm = ColoredTriMeshPytorch(np.array(F, dtype=np.int64), V.copy(), colors=np.zeros((n, 1)))
        pe = LaplacianRigidEnergyPytorch(pm, ref.copy(), cregu)
        others = [(tag, LaplacianRigidEnergy(mesh, y, cregu)) for tag, y in layouts(refc)]
        pothers = {tag: LaplacianRigidEnergyPytorch(pm, y, cregu) for tag, y in layouts(refc)[:2]}
        if not np.array_equal(ref, refc):
            r.bad("mutated", text)
        ref *= -7  # the caller reuses its array
        mesh.set_vertices(V * 3.5 + 1)
        disp = [np.zeros((n, 3)), np.ones((n, 3)) * [1, -2, 3], hashed(3 * n, 5).reshape(n, 3) - 0.5, 1e3 * hashed(3 * n, 6).reshape(n, 3)]
        for i in range(n if full else 1):
            for k in range(3):
                d = np.zeros((n, 3))
                d[i, k] = -1.5
                disp.append(d)
        for d in disp:
            x = refc + d
            df = (x - refc).flatten()
            # energy = cregu/2 |L d|^2
            Ld = L.dot(x - refc)
            want = 0.5 * cregu * (Ld * Ld).sum()
            wg = (cregu * LL.dot(df)).reshape(n, 3)
            xin = x.copy()
            v, g, h = e.evaluate(xin)
            r.n += 1
            r.key(text, cregu, round(float(v), 6))
            sc = 1 + abs(want)
            if not abs(v - want) <= 1e-9 * sc:
                r.bad("energy", "%s cregu %s: energy %s expected %s" % (text, cregu, v, want))
            if np.shape(g) != (n, 3) or not close(g / sc, wg / sc, 1e-9):
                r.bad("gradient", "%s cregu %s: gradient %s expected %s" % (text, cregu, g, wg))
            if not close(np.asarray(h.todense()), cregu * LL, 1e-9):
                r.bad("hessian", "%s cregu %s" % (text, cregu))
            if not np.array_equal(x, xin):
                r.bad("mutated vertices", text)
            for (tag, y), (tag2, e2) in itertools.product(layouts(x), [("C ordered", e)] + others):
                v2, g2, _ = e2.evaluate(y)
                if not close(v2 / sc, v / sc, 1e-12) or not close(np.asarray(g2) / sc, g / sc, 1e-12):
                    r.bad("memory layout", "%s cregu %s: %s vertices and %s reference give energy %s instead of %s" % (text, cregu, tag, tag2, v2, v))
                if tag != "reversed" and tag2 in pothers:
                    a2 = pothers[tag2].evaluate(torch.from_numpy(y))
                    if not abs(float(a2[0]) - want) <= 1e-9 * sc or not close(a2[1].numpy() / sc, wg / sc, 1e-9):
                        r.bad("torch memory layout", "%s cregu %s: %s vertices give energy %s instead of %s" % (text, cregu, tag, float(a2[0]), want))
            t = torch.tensor(x)
            a = pe.evaluate(t)
            t2 = torch.tensor(x, requires_grad=True)
            b = pe.evaluate(t2)
            b[0].backward()
            for tag, q in (("", a), (" with autograd", b)):
                if not abs(float(q[0]) - want) <= 1e-9 * sc:
                    r.bad("torch energy" + tag, "%s cregu %s: %s expected %s" % (text, cregu, float(q[0]), want))
                if not close(q[1].detach().numpy() / sc, wg / sc, 1e-9):
                    r.bad("torch gradient" + tag, "%s cregu %s" % (text, cregu))
                if not close(np.asarray(q[2].todense()), cregu * LL, 1e-9):
                    r.bad("torch hessian" + tag, "%s cregu %s" % (text, cregu))
            if not close(t2.grad.numpy() / sc, wg / sc, 1e-9):
                r.bad("torch autograd", "%s cregu %s: %s expected %s" % (text, cregu, t2.grad, wg))
            if not np.array_equal(t.numpy(), x):
                r.bad("torch mutated", text)
            if r.msgs:
                return


def check(case):
    r = R()
    r.n = 0
    if case["kind"] == "mesh":
        V, F = {**meshes.closed(), **meshes.opened()}[case["name"]]
        energy(r, F, V, case["name"], True)
    else:
        T = [t for t in itertools.combinations(range(5), 3)]
        V = np.array([(0, 0, 0), (1, 0, 0.5), (0, 1, 0.25), (1, 1, 1), (0.5, 2, 0)], dtype=float)
        for c in [None] + T:
            F = [T[case["i"]], T[case["j"]][::-1]] + ([c] if c else [])
            n = max(max(f) for f in F) + 1
            energy(r, F, V[:n], str(F), False)
            if n < 5 and c is None:
                energy(r, F, V, str(F) + " with unused vertices", False)
            if r.msgs:
                return r
    return r
