"""C12: camera model against an independent implementation, over all rotations of an integer quaternion ball and all parameter combinations."""
import itertools

import numpy as np

from camref import DIST, INTRINSICS, PC, TRANS, project, world
from dlib import close, dr, rational_rotations
from runner import R

ID = "C12"
LEVEL = "exploration"
RULE = ("all rotations given by integer quaternions with entries up to 1 (thorough 2) x intrinsics (skew, unequal and negative focal lengths) x each distortion coefficient alone and together x translations x points in front of and behind the camera; "
        "perspective cameras for all rotations x centres x fields of view x sizes; framing for all rotations x fields of view x image sizes x all boxes with extents from {0, 0.5, 2} x offsets; distinct = distinct projected point sets / framings")


def rots(tier):
    return rational_rotations(2 if tier == "thorough" else 1)


def cases(tier):
    for q, _ in rots(tier):
        yield dict(kind="project", q=q)
        yield dict(kind="perspective", q=q)
        yield dict(kind="frame", q=q)


def check(case):
    from dlib import quat_rot
    r = R()
    r.n = 0
    rot = quat_rot(case["q"])
    if case["kind"] == "project":
        for t, K, dist in itertools.product(TRANS, INTRINSICS, DIST):
            E = np.column_stack([rot, t])
            P = world(E)
            keep = P.copy()
            cam = dr.Camera(E, K, 6, 5, distortion=dist)
            u0, d0 = project(P, E, K, dist)
            r.n += 1
            r.key(np.round(u0, 6).tobytes())
            st = {}
            a = cam.project_points(P)
            b = cam.project_points(P, store_backward=st)
            c = cam.project_points(P, return_depths=False)
            text = "q=%s t=%s K=%s distortion=%s" % (case["q"], t, K.tolist(), dist)
            if not close(a[0], u0, 1e-8):
                r.bad("pixels", "%s: %s expected %s" % (text, a[0], u0))
            if not close(a[1], d0, 1e-9) or not close(a[1], np.array(PC)[:, 2], 1e-9):
                r.bad("depths", text)
            if not (np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and np.array_equal(a[0], c)):
                r.bad("options", text + ": the result depends on return_depths or store_backward")
            if not np.array_equal(P, keep):
                r.bad("mutated", text)
            if not close(cam.world_to_camera(P), np.array(PC), 1e-9):
                r.bad("world_to_camera", text)
            center = cam.get_center()
            if not close(rot.dot(center) + t, np.zeros(3), 1e-9):
                r.bad("get_center", "%s: centre %s" % (text, center))
            M = cam.camera_to_world_mtx_4x4()
            if M.shape != (4, 4) or not close(M.dot(np.vstack([E, [0, 0, 0, 1]])), np.eye(4), 1e-9):
                r.bad("camera_to_world", text)
            if r.msgs:
                return r
    elif case["kind"] == "perspective":
        for center, fov, (w, h), dist, norot in itertools.product([(0, 0, 0), (1, 2, -3), (-0.5, 0.25, 4)], (10, 45.5, 90, 150), ((4, 3), (3, 5), (640, 480), (7, 7)), (None, DIST[-2]), (0, 1)):
            if norot and case["q"] != (0, 0, 0, 1):
                continue
            r.n += 1
            c = np.array(center, dtype=float)
            cam = dr.PerspectiveCamera(w, h, fov, c, None if norot else rot, dist)
            text = "q=%s centre %s fov %s size %s" % (case["q"], center, fov, (w, h))
            r.key(np.round(cam.extrinsic, 6).tobytes(), fov, w, h)
            if not close(cam.get_center(), c, 1e-9):
                r.bad("perspective centre", "%s: centre is %s" % (text, cam.get_center()))
            if not close(cam.extrinsic[:, :3], rot, 1e-12):
                r.bad("perspective rotation", text)
            if (cam.width, cam.height) != (w, h):
                r.bad("perspective size", text)
            if abs(cam.xfov - fov) > 1e-9:
                r.bad("xfov", "%s: xfov %s" % (text, cam.xfov))
            yfov = np.degrees(2 * np.arctan(np.tan(np.radians(fov / 2)) * h / w))
            if abs(cam.yfov - yfov) > 1e-9:
                r.bad("yfov", "%s: yfov %s expected %s" % (text, cam.yfov, yfov))
            # border of the field of view, through the projection itself (without distortion)
            cam2 = dr.PerspectiveCamera(w, h, fov, c, rot)
            k = np.tan(np.radians(fov / 2))
            Q = np.array([(0, 0, 2.0), (k, 0, 1), (-3 * k, 0, 3), (0, k * h / w, 1), (0, -2 * k * h / w, 2)])
            u, d = cam2.project_points(c + Q.dot(rot))
            if not close(u, np.array([(w / 2, h / 2), (w, h / 2), (0, h / 2), (w / 2, h), (w / 2, 0)]), 1e-8) or not close(d, Q[:, 2], 1e-9):
                r.bad("field of view", "%s: %s %s" % (text, u, d))
            u, d = cam.project_points(c + np.array(PC).dot(rot))
            u0, d0 = project(c + np.array(PC).dot(rot), np.column_stack([rot, -rot.dot(c)]), cam.intrinsic, dist)
            if not close(u, u0, 1e-8) or not close(d, d0, 1e-8):
                r.bad("perspective projection", text)
            if r.msgs:
                return r
    else:
        for ext in itertools.product((0.0, 0.5, 2.0), repeat=3):
            if ext[0] == 0 and ext[1] == 0:
                continue
            for off, fov, (w, h) in itertools.product([(0, 0, 0), (5, -3, 1.5)], (20, 60, 90, 120), ((4, 3), (3, 5), (640, 480), (6, 6))):
                r.n += 1
                corners = np.array(list(itertools.product((-0.5, 0.5), repeat=3))) * ext + off  # camera frame
                inner = np.array([(0.1, -0.2, 0.3), (-0.45, 0.0, 0.2)]) * ext + off
                V = np.vstack([corners, inner]).dot(rot)
                keep = V.copy()
                cam = dr.default_camera(w, h, fov, V, rot)
                text = "q=%s extents %s offset %s fov %s size %s" % (case["q"], ext, off, fov, (w, h))
                u, d = cam.project_points(V)
                r.key(np.round(cam.extrinsic, 6).tobytes(), fov, w, h)
                if not np.array_equal(V, keep):
                    r.bad("frame mutated", text)
                if not close(cam.extrinsic[:, :3], rot, 1e-9):
                    r.bad("frame rotation", text)
                if not (d > 0).all():
                    r.bad("frame behind", "%s: depths %s" % (text, d))
                e = 1e-6 * max(w, h)
                if (u < -e).any() or (u[:, 0] > w + e).any() or (u[:, 1] > h + e).any():
                    r.bad("frame outside", "%s: %s" % (text, u))
                touch = [abs(u[:, 0].min()) < e and abs(u[:, 0].max() - w) < e, abs(u[:, 1].min()) < e and abs(u[:, 1].max() - h) < e]
                if not any(touch):
                    r.bad("frame loose", "%s: no dimension of the image is filled: %s .. %s" % (text, u.min(0), u.max(0)))
                if abs(cam.xfov - fov) > 1e-9 or (cam.width, cam.height) != (w, h):
                    r.bad("frame fov", text)
                cam2 = dr.default_camera(w, h, fov, V, rot, DIST[-2])
                if not close(cam2.extrinsic, cam.extrinsic, 1e-12) or cam2.distortion is None or not close(cam2.distortion, DIST[-2]):
                    r.bad("frame distortion", text)
                if r.msgs:
                    return r
    return r
