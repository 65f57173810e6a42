"""C28: exported MeshLab projects, read back with MeshLab's camera semantics, project points like the cameras they were made from."""
import itertools
import os
import tempfile
from xml.dom import minidom

import numpy as np

import camref
import meshes
from deodr.meshlab_io import export_meshlab
from deodr.obj import read_obj
from deodr.triangulated_mesh import ColoredTriMesh
from dlib import close, dr, rational_rotations
from runner import R

ID = "C28"
LEVEL = "exploration"
RULE = ("all rotations by integer quaternions with entries up to 1 (thorough 2) x translations x focal lengths x principal points x image sizes (several cameras per project) x meshes x file locations: mesh file, image files and their content, and every camera "
        "read back with the VCG camera model (viewpoint -TranslationVector, rows of RotationMatrix, focal length and pixel size, viewport width height) against the camera's own projection; distinct = distinct cameras")
ASSUME = ["square pixels, no skew, no distortion (the format written has one focal length and zero distortion)", "MeshLab's image y axis points up; CenterPx may count the rows from either end"]


def cases(tier):
    rots = rational_rotations(2 if tier == "thorough" else 1)
    for i in range(0, len(rots), 3):
        for t in range(len(camref.TRANS)):
            yield dict(q=[q for q, _ in rots[i:i + 3]], t=t, n=i)


def check(case):
    from dlib import quat_rot
    r = R()
    r.n = 0
    sizes = [(6, 5), (5, 9), (12, 12)]
    lib = list(meshes.closed().items())
    for k, (f, c) in enumerate(itertools.product((3.0, 110.0 + 1 / 3, 1234.56789), ((0.0, 0.0), (1.5, -0.75 - 1 / 7)))):
        cams, images = [], []
        for j, q in enumerate(case["q"]):
            rot = quat_rot(q)
            w, h = sizes[(j + k + k // 2) % 3]
            K = np.array([[f, 0, w / 2 + c[0]], [0, f, h / 2 + c[1]], [0, 0, 1]])
            cams.append(dr.Camera(np.column_stack([rot, camref.TRANS[case["t"]]]), K, h, w))
            img = (np.arange(h * w * 3).reshape(h, w, 3) * (j + 3) + k) % (256, 256, 2)[(j + case["t"] + k) % 3]  # one nearly black image in three
            images.append(img.astype((np.float64, np.uint8)[k % 2]))
        V, F = lib[(case["n"] + k) % len(lib)][1]
        m = ColoredTriMesh(F, V, colors=np.ones(V.shape))
        obj = ("mesh.obj", "other.obj")[k % 2]
        with tempfile.TemporaryDirectory(prefix="deodr-mlp-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None) as d:
            cwd = os.getcwd()
            os.mkdir(os.path.join(d, "sub"))
            os.mkdir(os.path.join(d, "cwd"))
            os.chdir(os.path.join(d, "cwd" if k % 3 else "sub"))
            try:
                path = os.path.join(d, "sub", "p.mlp") if k % 3 else "p.mlp"
                export_meshlab(path, m, cams, images, **({} if obj == "mesh.obj" else dict(obj_name=obj)))
            finally:
                os.chdir(cwd)
            base = os.path.join(d, "sub")
            r.n += 1
            verify(r, base, cams, images, V, F, obj, "%s focal %g centre offset %s" % (case, f, c))
        if r.msgs:
            return r
    return r


def verify(r, base, cams, images, V, F, obj, text):
    from imageio.v3 import imread
    doc = minidom.parse(os.path.join(base, "p.mlp"))
    ml = doc.getElementsByTagName("MLMesh")
    if len(ml) != 1 or ml[0].getAttribute("filename") != obj:
        return r.bad("mesh entry", text)
    gf, gv = read_obj(os.path.join(base, obj))
    if not np.array_equal(gf, F) or not close(gv, V, 1e-6):
        return r.bad("mesh file", text)
    ras = doc.getElementsByTagName("MLRaster")
    if len(ras) != len(cams):
        return r.bad("rasters", "%s: %d rasters for %d cameras" % (text, len(ras), len(cams)))
    for cam, img, e in zip(cams, images, ras):
        name = e.getElementsByTagName("Plane")[0].getAttribute("fileName")
        p = os.path.join(base, name)
        if not os.path.exists(p):
            return r.bad("image file", "%s: the image %s named by the project is not there" % (text, name))
        if not np.array_equal(imread(p), img.astype(np.uint8)):
            return r.bad("image content", text)
        a = e.getElementsByTagName("VCGCamera")[0]
        num = lambda n: np.array([float(x) for x in a.getAttribute(n).split()])  # noqa: E731
        view = tuple(int(x) for x in num("ViewportPx"))
        if view != (img.shape[1], img.shape[0]):
            return r.bad("viewport", "%s: viewport %s for an image of width %d and height %d" % (text, view, img.shape[1], img.shape[0]))
        rot = num("RotationMatrix").reshape(4, 4)
        tra = -num("TranslationVector")[:3]
        P = camref.world(cam.extrinsic)
        c = (P - tra).dot(rot[:3, :3].T)
        if not close(rot[3], [0, 0, 0, 1]) or not close(rot[:3, 3], [0, 0, 0]) or not close(np.linalg.det(rot), 1.0, 1e-9):
            return r.bad("rotation", "%s: %s is not a rotation matrix" % (text, rot.tolist()))
        f, ps, cen = num("FocalMm")[0], num("PixelSizeMm"), num("CenterPx")
        x = f / ps[0] * c[:, 0] / -c[:, 2] + cen[0]
        u, depth = camref.project(P, cam.extrinsic, cam.intrinsic, None)
        y_up = f / ps[1] * c[:, 1] / -c[:, 2]
        r.key(np.round(u, 6).tobytes(), np.round(rot, 6).tobytes())
        # image row = height - y (y up)
        ok = any(close(np.stack([x, (img.shape[0] - (y_up + cy))], 1), u, 1e-6) for cy in (cen[1], img.shape[0] - cen[1]))
        if not ok or not close(-c[:, 2], depth, 1e-6):
            return r.bad("projection", "%s: the exported camera projects %s to x=%s, the camera to %s" % (text, P[0], x[0], u[0]))
        r.count("points", len(P))
