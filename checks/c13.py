"""C13: the gradient of the camera projection against complex-step derivatives of an independent model."""
import itertools

import numpy as np

from camref import DIST, INTRINSICS, TRANS, project, vjp, world
from dlib import close, dr, hashed, quat_rot, rational_rotations
from runner import R

ID = "C13"
LEVEL = "exploration"
RULE = ("all rotations given by integer quaternions with entries up to 1 (thorough 2) x translations x intrinsics x distortion sets x every unit adjoint of one point (two image coordinates, depth) at every point of a set x dense adjoints; "
        "with and without depth adjoint; two projections stored before either is back-propagated; distinct = distinct gradients")
ASSUME = ["the oracle derivative is the complex step of an independent projection formula, exact to rounding"]


def cases(tier):
    for q, _ in rational_rotations(2 if tier == "thorough" else 1):
        for k in range(len(INTRINSICS)):
            yield dict(q=q, k=k)


def check(case):
    r = R()
    r.n = 0
    rot = quat_rot(case["q"])
    K = INTRINSICS[case["k"]]
    for t, dist in itertools.product(TRANS, DIST):
        E = np.column_stack([rot, t])
        P = world(E)
        n = len(P)
        cam = dr.Camera(E, K, 6, 5, distortion=dist)
        st, st2 = {}, {}
        cam.project_points(P, store_backward=st)
        cam.project_points(P[::-1] * 1.25 + 0.01, store_backward=st2)
        full = hashed(2 * n, 3).reshape(n, 2) - 0.4
        dfull = hashed(n, 5) - 0.4
        adj = [(full, None), (full, dfull), (full * 0, dfull)]
        for k, v in itertools.product(range(3), (1.0, -2.5)):
            ub, db = np.zeros((n, 2)), np.zeros(n)
            if k < 2:
                ub[:, k] = v
            else:
                db[:] = v
            adj.append((ub, db))
        for i in range(n):
            ub = np.zeros((n, 2))
            ub[i] = (1, -1.5)
            adj.append((ub, None))
        for ub, db in adj:
            r.n += 1
            want = vjp(P, E, K, dist, ub, db)
            a, b = ub.copy(), None if db is None else db.copy()
            got = cam.project_points_backward(a, st) if db is None else cam.project_points_backward(a, st, depths_b=b)
            r.key(np.round(want, 7).tobytes())
            text = "q=%s t=%s K=%s distortion=%s" % (case["q"], t, K.tolist(), dist)
            scale = 1 + np.abs(want).max()
            if np.shape(got) != want.shape or not close(got / scale, want / scale, 1e-9):
                r.bad("gradient", "%s adjoint %s %s: got %s expected %s" % (text, ub.tolist(), db, got, want))
            if not np.array_equal(a, ub) or (db is not None and not np.array_equal(b, db)):
                r.bad("mutated", "%s: the adjoint is modified" % text)
            if not np.array_equal(P, world(E)):
                r.bad("mutated points", text)
            if r.msgs:
                return r
        got = cam.project_points_backward(full, st2, depths_b=dfull)
        want = vjp(P[::-1] * 1.25 + 0.01, E, K, dist, full, dfull)
        if not close(got / np.abs(want).max(), want / np.abs(want).max(), 1e-9):
            r.bad("stored projection", "%s: second stored projection" % text)
            return r
    return r
