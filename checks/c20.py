"""C20: Scene3D against the reference renderer applied to an independently composed 2D scene, over meshes, poses and all settings."""
import itertools

import numpy as np

from dlib import Ref, compare_forward, dr, scene
from runner import R
from s3d import Spec

ID = "C20"
LEVEL = "exploration"
RULE = ("library meshes (closed and open, several components, both orientations) x camera poses x every combination of {culling, perspective_correct, pixel centres, sigma, background kind, lights (also almost along the surface), negative colours, colour channels / texture with a seam, depth and its scale}, "
        "with lens distortion and skew on part of them; every unambiguous pixel of image and depth buffer against the brute-force reference applied to the independently projected and lit 2D scene; plus all lattice triangles and parallelograms whose exactly projected vertices and edges meet pixel centres, in colour, depth and deferred rendering; distinct = distinct images")
ASSUME = ["in the posed scenes, pixels whose centre is within 1e-9 of an edge or at an exact depth tie are left out", "mesh in front of the camera", "texture seams by faces_uv"]

MESHES = ("tetra", "octa", "cube", "torus33", "bipyr3", "two", "strip5", "fan5", "grid22", "opentetra", "triangle")
POSES = ((1, 2, 3, 4), (-3, 1, 0.5, 2), (0.25, -1, 2, -0.5), (5, 1, -4, 0.75), (0, 0, 0, 1), (1, 0, 0, 0.05))
LIGHTS = ((None, 0.75), ((0.25, -0.5, -0.75), 0.3), ((-2.1, 1.0, 0.7), 0.0), ((0.0, 0.0, 0.0), 0.5))
DIST = (None, (0.1, -0.05, 0.02, 0.03, 0.01))
UNITS = (1.0, 1.0, 2.0 ** -12, 2.0 ** 10)


def cases(tier):
    poses = POSES if tier == "thorough" else POSES[:4]
    for m, p, cw, kind in itertools.product(MESHES, range(len(poses)), (False, True), ("c3", "t3", "c1", "t1", "depth", "c4", "u3", "v3")):
        if tier == "quick" and (p + (kind in ("c1", "t1", "c4", "u3", "v3"))) % 4 > 1 and kind != "depth" and m in ("torus33", "two", "cube", "grid22"):
            continue
        yield dict(mesh=m, pose=p, cw=cw, kind=kind)
    for a in range(len(LAT)):
        yield dict(kind="ties", a=a)


LAT = [(x, y) for x in (0, 1.5, 2, 4) for y in (0, 1, 2.5, 4)]


def ties(r, case):
    """Triangles and pairs of triangles whose exactly projected vertices and edges meet pixel centres: colour, depth and deferred rendering show the same pixels."""
    from deodr.triangulated_mesh import ColoredTriMesh
    a = case["a"]
    for b, c in itertools.combinations([i for i in range(len(LAT)) if i != a], 2):
        p = np.array([LAT[a], LAT[b], LAT[c], (LAT[b][0] + LAT[c][0] - LAT[a][0], LAT[b][1] + LAT[c][1] - LAT[a][1])], dtype=float)
        area = (p[1, 0] - p[0, 0]) * (p[2, 1] - p[0, 1]) - (p[2, 0] - p[0, 0]) * (p[1, 1] - p[0, 1])
        if area == 0:
            continue
        cw, pc, ipc, quad = [bool((a + b * 3 + c * 5 + (a * b * c) // 7) >> i & 1) for i in range(4)]
        f = (0, 1, 2) if (area > 0) == cw else (0, 2, 1)
        F = np.array([f] + ([(3, f[2], f[1])] if quad else []))
        n = 3 + quad
        z = np.array([1, 2, 1, 2.0])[:n] if (b + c) % 2 else np.ones(n)
        V = np.column_stack(((p[:n] - [1, 2]) / 4 * z[:, None], z))
        sc = dr.Scene3D(sigma=0.0, perspective_correct=pc, integer_pixel_centers=ipc)
        col = 0.25 + np.arange(n * 2).reshape(n, 2) / 8
        bg = np.array([-0.5, -0.75])
        sc.set_mesh(ColoredTriMesh(F, V, clockwise=cw, colors=col))
        sc.set_light(None, 1.0)
        sc.set_background_color(bg)
        cam = dr.Camera(np.eye(3, 4), np.array([[4.0, 0, 1], [0, 4, 2], [0, 0, 1]]), 5, 6)
        text = "vertices at pixels %s depths %s faces %s clockwise=%s perspective_correct=%s integer_pixel_centers=%s" % (p[:n].tolist(), z.tolist(), F.tolist(), cw, pc, ipc)
        img, zb = sc.render(cam, return_z_buffer=True)
        kw = dict(width=6, height=5, edgeflags=np.zeros((len(F), 3)), clockwise=cw, perspective_correct=pc, integer_pixel_centers=ipc)
        s2 = scene(p[:n], F, z, nb_colors=2, colors=col, background=bg, **kw)
        compare_forward(r, "ties:color", s2, img, zb, Ref(s2, exact=True), 0.0)
        sc.set_background_color(bg[:1])
        dep = sc.render_depth(cam)
        s3 = scene(p[:n], F, z, nb_colors=1, colors=z[:, None], background=bg[:1], **kw)
        compare_forward(r, "ties:depth", s3, dep, zb, Ref(s3, exact=True), 0.0)
        sc.set_background_color(bg)
        d = sc.render_deferred(cam, depth_scale=1)
        for k in ("depth", "color"):
            m = np.isfinite(zb)
            got = np.asarray(d[k])
            want = img if k == "color" else dep
            if got.shape != want.shape or not np.allclose(got[m], want[m], atol=1e-9) or np.unique(got[~m], axis=0).shape[0] > 1 or (k == "color" and m.any() and not m.all() and (np.abs(got[m] - got[~m][0]).max(-1) < 1e-6).any()):
                r.bad("ties:deferred " + k, "deferred rendering shows other pixels than colour rendering")
        r.n += 3
        r.key("ties", zb.tobytes(), pc)
        if r.msgs:
            r.msgs = [(x, y + " " + text) for x, y in r.msgs]
            return


def settings():
    for cull, pc, ipc, sigma, bg in itertools.product((True, False), (False, True), (True, False), (0.0, 0.75, 2.5), ("color", "image")):
        yield dict(cull=cull, pc=pc, ipc=ipc, sigma=0.3 if sigma == 0.75 and cull == ipc else sigma, bg=bg)


def check(case):
    r = R()
    r.n = 0
    if case["kind"] == "ties":
        ties(r, case)
        return r
    j = sum(map(ord, case["mesh"] + case["kind"])) + case["pose"] * 5 + case["cw"]
    for i, st in enumerate(settings()):
        light, amb = LIGHTS[(i + i // 4 + j) % 4]
        kind = "c1" if case["kind"] == "depth" else case["kind"]
        sp = Spec(mesh=case["mesh"], kind=kind, cw=case["cw"], light=light, ambient=amb, pose=POSES[case["pose"]], dist=DIST[(i // 3 + j) % 2], unit=UNITS[(i // 2 + j) % 4], skew=0.5 * ((i // 5 + j) % 2),
                  size=((11, 9), (8, 12))[(i // 7 + j) % 2], near=0.1 if (i + i // 5) % 7 == 3 else 1.0, deform=(i // 2) % 2,
                  shift=-0.75 * ((i // 3 + j) % 4 == 1), graze=i + j if (i + i // 4 + i // 16 + j) % 3 == 0 else None, **st)
        sc = sp.make_scene()
        cam = sp.camera()
        r.n += 1
        mode, scale = "color", 1.0
        text = "%s %s" % (case, st)
        if case["kind"] == "depth":
            mode, scale = "depth", (1.0, 0.375, -2.0)[i % 3]
            img = sc.render_depth(cam, depth_scale=scale, backface_culling=sp.cull)
        else:
            img, z = sc.render(cam, return_z_buffer=True, backface_culling=sp.cull)
            if i % 4 == 0:
                img1 = sc.render(cam, backface_culling=sp.cull)
                if not np.array_equal(img1, img):
                    r.bad("return_z_buffer", text)
        s2, ref = sp.compose(mode, scale)
        if case["kind"] == "depth":
            z = ref.render(0)[1]  # not returned by render_depth
        if sp.margin < 1e-7:
            r.count("skipped degenerate")
            continue
        nb = len(r.msgs)
        ok = compare_forward(r, mode, s2, img, z, ref, sp.sigma)
        r.count("pixels", int(ok.sum()))
        r.count("ambiguous", int((~ok).sum()))
        if len(r.msgs) > nb:
            r.msgs[nb:] = [(a, b + " " + text) for a, b in r.msgs[nb:]]
            return r
        if np.isfinite(ref.render(0)[1]).any():
            r.key(np.round(img, 6).tobytes())
        if not np.array_equal(sc.mesh.vertices, sp.V) or not np.array_equal(sc.mesh.faces, sp.F):
            r.bad("mutated", text)
        back = sc.background_image if sp.bg == "image" else sc.background_color
        if not np.array_equal(back, sp.bgval):
            r.bad("mutated background", text)
    return r
