"""C27: quaternion, normalisation and cross-product helpers against independent formulas and complex-step derivatives."""
import itertools

import numpy as np

from deodr import tools
from dlib import close, hashed, quat_rot
from runner import R

ID = "C27"
LEVEL = "exploration"
RULE = ("all integer quaternions with entries up to 2 (thorough 3), normalised and not, single and batched, on all lattice vectors; all unit adjoints; normalisation of 1-3 dimensional arrays along every axis (positive and negative); "
        "cross products of all pairs of lattice vectors with entries in -1..1; finite-difference helpers on polynomial functions of every small size; distinct = distinct results")
VEC = [np.array(v, dtype=np.float64) for v in itertools.product((-1, 0, 1.5), repeat=3)]


def cases(tier):
    m = 3 if tier == "thorough" else 2
    for a, b in itertools.product(range(-m, m + 1), repeat=2):
        yield dict(kind="quat", a=a, b=b, m=m)
    for nd in (1, 2, 3):
        for shape in itertools.product((1, 2, 3), repeat=nd):
            yield dict(kind="normalize", shape=shape)
    for i in range(27):
        yield dict(kind="cross", i=i)
    for n, k in itertools.product((1, 2, 3, 4), (1, 2, 3)):
        yield dict(kind="fd", n=n, k=k)


def qmat(q):
    """v + 2 (w q x v + q x (q x v)) as a matrix, polynomial in q (complex allowed)."""
    x, y, z, w = q
    K = np.array([[0 * x, -z, y], [z, 0 * x, -x], [-y, x, 0 * x]])
    return np.eye(3) + 2 * (w * K + K.dot(K))


def check(case):
    r = R()
    r.n = 0
    k = case["kind"]

    def unchanged(tag, before, after):
        if not all(np.array_equal(x, y) for x, y in zip(before, after)):
            r.bad("mutated " + tag, str(case))

    if k == "quat":
        m = case["m"]
        V = np.array(VEC)
        batch, mats = [], []
        for c, d in itertools.product(range(-m, m + 1), repeat=2):
            q0 = np.array([case["a"], case["b"], c, d], dtype=float)
            nq = np.linalg.norm(q0)
            if nq == 0:
                continue
            for q in (q0 / nq, q0 * 0.75):
                r.n += 1
                unit = abs(np.linalg.norm(q) - 1) < 1e-12
                M = quat_rot(q) if unit else qmat(q)
                args = (q.copy(), V.copy())
                got = tools.qrot(*args)
                unchanged("qrot", (q, V), args)
                batch.append(q)
                mats.append(M)
                if got.shape != V.shape or not close(got, V.dot(M.T), 1e-9):
                    r.bad("qrot", "q=%s: %s expected %s" % (q, got, V.dot(M.T)))
                r.key(np.round(got, 6).tobytes())
                adjs = [hashed(V.size, 3).reshape(V.shape) - 0.5]
                for i, j in itertools.product((0, 5, 13, 26), range(3)):
                    b = np.zeros(V.shape)
                    b[i, j] = 1
                    adjs.append(b)
                J = []
                for e in range(4):
                    z = q.astype(complex)
                    z[e] += 1e-40j
                    J.append(V.dot(qmat(z).T).imag / 1e-40)
                P = qmat(q)
                for b in adjs:
                    args = (q.copy(), V.copy(), b.copy())
                    qb, vb = tools.qrot_backward(*args)
                    unchanged("qrot_backward", (q, V, b), args)
                    if not close(qb, [(jj * b).sum() for jj in J], 1e-9):
                        r.bad("qrot_backward q", "q=%s adjoint %s: %s expected %s" % (q, b.tolist(), qb, [(jj * b).sum() for jj in J]))
                    if not close(vb, b.dot(P), 1e-9):
                        r.bad("qrot_backward v", "q=%s adjoint %s" % (q, b.tolist()))
                if r.msgs:
                    return r
        if batch:
            got = tools.qrot(np.array(batch), V)
            want = np.stack([V.dot(M.T) for M in mats])
            if got.shape != want.shape or not close(got, want, 1e-9):
                r.bad("qrot batch", str(case))
            one = tools.qrot(np.array(batch[:1]), V[:1])
            if one.shape != (1, 1, 3) or not close(one, want[:1, :1], 1e-9):
                r.bad("qrot batch of one", str(case))
    elif k == "normalize":
        shape = tuple(case["shape"])
        n = int(np.prod(shape))
        for x in (hashed(n, 3).reshape(shape) - 0.4, 1e-3 * (hashed(n, 4).reshape(shape) + 0.1), 1e5 * (hashed(n, 5).reshape(shape) - 2), -np.ones(shape), 1e-9 * (hashed(n, 6).reshape(shape) - 0.3)):
            for axis in list(range(len(shape))) + list(range(-len(shape), 0)) + [None]:
                r.n += 1
                kw = {} if axis is None else dict(axis=axis)
                ax = -1 if axis is None else axis
                norm = lambda y: y / np.sqrt((y * y).sum(axis=ax, keepdims=True))  # noqa: E731
                arg = x.copy()
                got = tools.normalize(arg, **kw)
                unchanged("normalize", (x,), (arg,))
                r.key(shape, ax, got.tobytes())
                if got.shape != shape or not close(got, norm(x), 1e-10) or not close((got ** 2).sum(axis=ax), np.ones(got.sum(axis=ax).shape), 1e-9):
                    r.bad("normalize", "%s axis %s" % (x, axis))
                    return r
                J = np.zeros((n,) + shape)
                h = 1e-40
                for i in range(n):
                    z = x.astype(complex).flatten()
                    z[i] += 1j * h
                    J[i] = norm(z.reshape(shape)).imag / h
                for b in [hashed(n, 7).reshape(shape) - 0.5] + [np.eye(n)[i].reshape(shape) for i in range(n)]:
                    args = (x.copy(), b.copy())
                    g = tools.normalize_backward(*args, **kw)
                    unchanged("normalize_backward", (x, b), args)
                    want = (J * b).reshape(n, -1).sum(1).reshape(shape)
                    s = 1 / np.sqrt((x * x).sum(axis=ax)).min()
                    if g.shape != shape or not close(g / s, want / s, 1e-9):
                        r.bad("normalize_backward", "x=%s axis %s adjoint %s: %s expected %s" % (x, axis, b, g, want))
                        return r
    elif k == "cross":
        V = np.array(VEC)
        u = np.repeat(V[case["i"]][None], len(V), 0)
        for b in list(np.eye(3)) + [np.array([1, -2, 0.5])]:
            B = np.repeat(b[None], len(V), 0)
            r.n += len(V)
            args = (u.copy(), V.copy(), B.copy())
            ub, vb = tools.cross_backward(*args)
            unchanged("cross_backward", (u, V, B), args)
            # sum_ijk eps_ijk u_j v_k b_i
            eps = np.zeros((3, 3, 3))
            for p, s in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((2, 1, 0), -1), ((1, 0, 2), -1)):
                eps[p] = s
            wu, wv = np.einsum("ijk,nk,ni->nj", eps, V, B), np.einsum("ijk,nj,ni->nk", eps, u, B)
            r.key(wu.tobytes(), wv.tobytes())
            if not close(ub, wu, 1e-12) or not close(vb, wv, 1e-12):
                r.bad("cross_backward", "u=%s adjoint %s" % (V[case["i"]], b))
            one = tools.cross_backward(u[0], V[3], b)
            if not close(one[0], wu[3], 1e-12) or not close(one[1], wv[3], 1e-12):
                r.bad("cross_backward single", str(case))
    else:
        n, m = case["n"], case["k"]
        A = hashed(n * m, 3).reshape(m, n) - 0.5
        for shape in {(n,), (1, n), (n, 1)} | ({(2, 2)} if n == 4 else set()):
            x = hashed(n, 5).reshape(shape)
            if shape == (2, 2):
                xs = [x, np.asfortranarray(x)]
            else:
                xs = [x]
            for x in xs:
                def f(y):
                    return A.dot(np.asarray(y).ravel()) + 0.5 * A.dot(np.asarray(y).ravel() ** 2)
                keep = x.copy()
                J = tools.jacobian_finite_differences(f, x)
                want = A + A * x.ravel()[None]
                r.n += 1
                r.key(J.tobytes())
                if J.shape != (m, n) or not np.allclose(J, want, atol=1e-5):
                    r.bad("jacobian", "%s: %s expected %s" % (case, J, want))
                if not np.array_equal(x, keep):
                    r.bad("mutated jacobian", str(case))
                tools.check_jacobian_finite_differences(want, f, x)
                if not np.array_equal(x, keep):
                    r.bad("mutated check_jacobian", str(case))
                for i, j in itertools.product(range(m), range(n)):
                    wrong = want.copy()
                    wrong[i, j] += 1e-2
                    try:
                        tools.check_jacobian_finite_differences(wrong, f, x)
                    except AssertionError:
                        continue
                    r.bad("check_jacobian", "a wrong jacobian is accepted (entry %d,%d)" % (i, j))
        count = [0.0]

        def unstable(y):
            count[0] += 1
            return np.array([count[0]])
        try:
            tools.jacobian_finite_differences(unstable, np.zeros(n))
        except AssertionError:
            pass
        else:
            r.bad("jacobian state", "a function with a state is accepted")
    return r
