"""C21: Scene3D gradients against the exact derivative of the independently composed scene."""
import itertools

import numpy as np

from c20 import DIST, LIGHTS, MESHES, POSES, UNITS
from dlib import close_scaled, hashed, vb
from runner import R
from s3d import Spec

ID = "C21"
LEVEL = "exploration"
RULE = ("library meshes x orientations x poses x {1, 3, 4 colour channels, texture with a seam, depth with its scale} x every combination of {pixel centres, sigma, background} x lights, also almost along the surface at a vertex, x negative colours x distortion; adjoints: dense ones and every pixel alone with every channel (quick: every third pixel); "
        "gradients of vertices, colours, texture, directional and ambient light against the reference gradient of the 2D scene chained with complex-step derivatives of camera and normals; distinct = distinct vertex gradients")
ASSUME = ["adjoint zero at pixels within 1e-9 of an edge, a depth tie or a texel border", "mesh in front of the camera", "vertices belong to at least one face unless stated"]


def cases(tier):
    poses = POSES if tier == "thorough" else POSES[:3]
    for m, p, cw, kind in itertools.product(MESHES + ("loose",), range(len(poses)), (False, True), ("c3", "t3", "c1", "t1", "depth", "c4", "u3", "v3")):
        if tier == "quick" and m in ("torus33", "two", "cube", "grid22") and (p + cw + len(kind)) % 3:
            continue
        yield dict(mesh=m, pose=p, cw=cw, kind=kind, tier=tier)


def spec(case, i, st):
    j = sum(map(ord, case["mesh"] + case["kind"])) + case["pose"] * 5 + case["cw"]
    light, amb = LIGHTS[(i + i // 4 + j) % 4]
    kind = "c1" if case["kind"] == "depth" else case["kind"]
    return Spec(mesh=case["mesh"], kind=kind, cw=case["cw"], light=light, ambient=amb, pose=POSES[case["pose"]], dist=DIST[(i // 3 + j) % 2], unit=UNITS[(i // 2 + j) % 4], skew=0.5 * ((i // 5 + j) % 2),
                size=((9, 7), (6, 8))[(i // 7 + j) % 2], deform=(i // 2) % 2,
                shift=-0.75 * ((i // 3 + j) % 4 == 1), graze=i + j if (i + i // 4 + i // 16 + j) % 3 == 0 else None, **st)


def compare(r, sc, sp, want, text, tol=1e-9):
    got = dict(vertices=vb(sc.mesh))
    if "light" in want:
        got["light"] = sc.light_directional_b
    if "ambient" in want:
        got["ambient"] = sc.light_ambient_b
    if "colors" in want:
        got["colors"] = sc.mesh.vertices_colors_b
    if "texture" in want:
        got["texture"] = sc.scene_2d.texture_b
    for k, w in want.items():
        g = np.asarray(got[k])
        if g.shape != np.shape(w) or not close_scaled(g, w, 1 + np.abs(w).max(), tol):
            r.bad(k, "gradient of %s: %s expected %s (%s)" % (k, g.ravel()[:9], np.ravel(w)[:9], text))
            return False
    return True


def check(case):
    r = R()
    r.n = 0
    for i, (ipc, sigma, bg) in enumerate(itertools.product((True, False), (0.0, 0.75, 2.5), ("color", "image"))):
        sigma = 0.3 if sigma == 0.75 and not ipc else sigma
        st = dict(ipc=ipc, sigma=sigma, bg=bg)
        text = "%s %s" % (case, st)
        if case["mesh"] == "loose":  # vertices without faces
            sp = spec(dict(case, mesh="octa"), i, st)
            n = len(sp.V)
            sp.V = np.vstack([sp.V, [[0.25, 0.5, 0.125]]])
            if not sp.textured:
                sp.colors = np.vstack([sp.colors, sp.colors[:1]])
        else:
            sp = spec(case, i, st)
        sc = sp.make_scene()
        cam = sp.camera()
        if case["kind"] == "depth":
            mode, scale = "depth", (1.0, 0.375, -2.0)[i % 3]
            img = sc.render_depth(cam, depth_scale=scale)
        else:
            mode, scale = "color", 1.0
            img = sc.render(cam)
        s2, ref = sp.compose(mode, scale)
        if sp.margin < 1e-7:
            r.count("skipped degenerate")
            continue
        amb = ref.render(sigma)[3]
        free = (amb == 0)
        h, w, c = img.shape
        adjs = [(hashed(img.size, 3) - 0.25).reshape(img.shape), np.ones(img.shape)]
        step = 1 if case["tier"] == "thorough" else (7 if len(sp.F) > 8 else 3)
        for q in range((i + 1) % step, h * w, step):
            b = np.zeros(img.shape)
            b.reshape(-1, c)[q, q % c] = 1.0
            adjs.append(b)
        for b in adjs:
            b = b * free[..., None]
            if not b.any():
                continue
            r.n += 1
            g = ref.grad(sigma, b)
            want = sp.vjp_depth(g, scale) if mode == "depth" else sp.vjp_color(g) if case["mesh"] != "loose" else loose(sp, g)
            sc.clear_gradients()
            if mode == "depth":
                sc.render_depth_backward(b.copy())
            else:
                sc.render_backward(b.copy())
            if not compare(r, sc, sp, want, text):
                return r
            if np.abs(want["vertices"]).max() > 0:
                r.key(np.round(want["vertices"], 6).tobytes())
    return r


def loose(sp, g):
    """Gradients with an unused last vertex: those of the mesh without it, zero for that vertex."""
    n = len(sp.V) - 1
    full = sp.V, sp.colors
    sp.V = sp.V[:n]
    if not sp.textured:
        sp.colors = sp.colors[:n]
    g = dict(g, ij_b=g["ij_b"][:n], colors_b=g["colors_b"][:n], shade_b=g["shade_b"][:n])
    w = sp.vjp_color(g)
    sp.V, sp.colors = full
    w["vertices"] = np.vstack([w["vertices"], np.zeros((1, 3))])
    if "colors" in w:
        w["colors"] = np.vstack([w["colors"], np.zeros((1, sp.nc))])
    return w
