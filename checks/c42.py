"""C42: scenes of finite values have finite images and gradients, however thin or edge-on their triangles are."""
import itertools

import numpy as np
import torch

from c20 import POSES
from c26 import torch_scene
from dlib import close, hashed, scene, vb
from runner import R
from s3d import Spec

torch.set_num_threads(1)
ID = "C42"
LEVEL = "exploration"
CASE_LIMIT = 300
OFFS = (0.0, 10 / 3, 1000 / 3, 1e5 / 3)
DIRS = ((1, 1), (1, 2), (1, 3), (2, 3), (3, 7), (0, 1), (1, 0), (-1, 3), (-2, 5))
SCALES = (7.0, 1.0, 0.1, 1e-3, 1e-9, 1e-15)
POS = (0.0, 1 / 7, 1 / 3, 0.7, 1.0)
LIFT = (0.0, 1e-16, -3e-15, 1e-12, -1e-9)
FLAGS = [dict(clockwise=c, integer_pixel_centers=i, strict_edge=s, backface_culling=b, perspective_correct=p) for c, i, s, b, p in
         ((True, True, False, True, False), (False, False, True, True, False), (True, False, True, True, False), (False, True, False, False, False), (True, True, True, True, True), (False, False, False, True, True))]
RULE = ("triangles whose three corners lie on one line up to {0, 1e-16, -3e-15, 1e-12, -1e-9} pixels: 9 directions x 4 distances to the origin x 6 sizes (7 to 1e-15 pixels) x every triple of 5 positions on the line, coincident corners included, x 6 combinations of the flags x interpolated and textured x sigma 0 and 1 x images and residuals, alone and between two other triangles: "
        "image, residual and every gradient finite, the z-buffer finite or the background, and the gradients of the other triangles unchanged when the flat triangle shows nowhere; "
        "and 3D meshes: flat grids in planes through the camera centre x poses x kinds x lights x distortion, also in front of and behind solids: colour, depth, deferred and PyTorch images and gradients finite; distinct = distinct (scene, settings)")
ASSUME = ["depths are positive; the faces of 3D meshes have an area (their normals are defined)", "gradients with perspective-correct interpolation are refused by the library and not asked for",
          "values interpolated inside a triangle of area below the rounding errors of its coordinates are arbitrary finite numbers"]


def cases(tier):
    for o, d, s in itertools.product(range(len(OFFS)), range(len(DIRS)), range(len(SCALES))):
        yield dict(off=o, dir=d, scale=s, all=tier == "thorough")
    for p, kind in itertools.product(range(len(POSES)), ("c3", "t3", "u3", "c1")):
        yield dict(plane=p, kind=kind, all=tier == "thorough")


def finite(r, sig, text, **arrays):
    for k, x in arrays.items():
        if x is not None and not np.isfinite(x).all():
            n = int((~np.isfinite(x)).sum())
            r.bad(sig + " " + k, "%s: %d of %d elements of %s are %s" % (text, n, np.size(x), k, np.ravel(x)[~np.isfinite(np.ravel(x))][:3]))
            return False
    return True


W, H, NC = 7, 6, 2
OBS, ADJ = hashed(W * H * NC, 5).reshape(H, W, NC), hashed(W * H * NC, 7).reshape(H, W, NC) - 0.375
NAMES = ("ij_b", "colors_b", "shade_b", "uv_b", "texture_b")


def build(P, depths, tex, fl):
    n = len(P)
    nt = n // 3
    kw = dict(uv=hashed(2 * n, 3).reshape(n, 2) * [4, 3] + 0.25, texture=0.3 + hashed(5 * 4 * NC, 9).reshape(5, 4, NC), textured=np.ones(nt, bool)) if tex else {}
    return scene(P, np.arange(n).reshape(nt, 3), depths, width=W, height=H, nb_colors=NC, **kw, **fl)


def run(r, s, sigma, mode, text):
    """-> arrays, or None when something is not finite."""
    if mode:
        im, z, er = s.render_error(OBS, sigma)
    else:
        (im, z), er = s.render(sigma), None
    if np.isnan(z).any() or (z == -np.inf).any():
        r.bad("z-buffer", "%s: z-buffer contains %s" % (text, z[~np.isfinite(z)][:3]))
    if not finite(r, "flat", text, image=im, residual=er):
        return None
    g = {}
    if not s.perspective_correct and s.backface_culling:
        s.clear_gradients()
        s.render_error_backward(np.ascontiguousarray(ADJ[:, :, 0])) if mode else s.render_backward(ADJ)
        g = {k: np.array(getattr(s, k)) for k in NAMES}
        if not finite(r, "gradient of flat", text, **g):
            return None
    return dict(image=im, z=z, er=er), g


def flat2d(r, case):
    off, (q, p), sc = OFFS[case["off"]], DIRS[case["dir"]], SCALES[case["scale"]]
    nrm = np.array([-p, q]) / np.hypot(p, q)
    front = [[1.3, 0.7], [4.1, 1.2], [2.2, 3.9]]
    back = [[-1.2, -0.8], [7.3, 0.4], [1.1, 8.7]]
    j = case["off"] + case["dir"] + case["scale"]
    plain = {}
    for i, (ts, li) in enumerate(itertools.product(itertools.product(POS, repeat=3), LIFT)):
        if len(set(ts)) == 1 and li == 0 and sum(ts) > 1:
            continue
        if not case["all"] and (i + j) % 3:
            continue
        P = np.array([[off + 1 + sc * q * t, off / 3 + 1 + sc * p * t] for t in ts])
        P[1] += li * nrm
        for f, tex in itertools.product(range(len(FLAGS)), (0, 1)):
            if not case["all"] and (i + f + tex + j // 3) % 4:
                continue
            fl = FLAGS[f]
            order = slice(None) if fl["clockwise"] else slice(None, None, -1)
            for sg, mode, among in itertools.product((0.0, 1.0), (0, 1), (0, 1)):
                r.n += 1
                text = "triangle %s, flags %s, textured=%d, sigma=%g, mode %d, among others: %d" % (P.tolist(), fl, tex, sg, mode, among)
                r.key(case["off"], case["dir"], case["scale"], i, f, tex, sg, mode, among)
                if not among:
                    if run(r, build(P, [2.0, 3.1, 2.7], tex, fl), sg, mode, text) is None:
                        return
                    continue
                Q = np.array(front[order] + back[order] + P.tolist())
                dep = [1.1, 1.2, 1.4, 5.1, 4.2, 6.3, 2.0, 3.1, 2.7]
                k = (f, tex, sg, mode)
                got = run(r, build(Q, dep, tex, fl), sg, mode, text)
                if got is None:
                    return
                if k not in plain:
                    # the flat triangle is moved out of sight, uv and colours stay
                    Q2 = Q.copy()
                    Q2[6:] = [[-50, -50], [-51, -50], [-50, -50.5]]
                    plain[k] = run(r, build(Q2, dep, tex, fl), sg, mode, text)
                    if plain[k] is None:
                        return
                (x, g), (y, h) = got, plain[k]
                if close(x["image"], y["image"], 1e-12) and (not mode or close(x["er"], y["er"], 1e-12)) and np.array_equal(x["z"], y["z"]) and g:
                    r.count("hidden")
                    for n in ("ij_b", "colors_b", "shade_b", "uv_b"):
                        if not close(g[n][:6], h[n][:6], 1e-9):
                            r.bad("influence", "%s: shows nowhere, but %s of the other triangles becomes %s instead of %s" % (text, n, g[n][:6].ravel()[:6], h[n][:6].ravel()[:6]))


SETTINGS = [dict(sigma=s, light=l, dist=d, ipc=i, bg=b) for s, l, d, i, b in ((1.0, None, None, True, "color"), (0.0, (0.3, -0.5, -0.75), None, False, "image"), (1.5, (0.2, 0.5, 0.1), (0.11, -0.05, 0.01, 0.02, 0.03), False, "color"), (0.0, None, (0.11, -0.05, 0.01, 0.02, 0.03), True, "color"))]


def plane_spec(case, u, v, near, solid, st):
    """A 3 x 3 grid in the plane of the directions u and v (image plane coordinates) of two rays of the camera."""
    sp = Spec("cube" if solid else "grid22", case["kind"], pose=POSES[case["plane"]], size=(11, 9), **st)
    rot, t = sp.E[:, :3], sp.E[:, 3]
    a, b = np.array([u[0], u[1], 1.0]), np.array([v[0], v[1], 1.0])
    al = (0.6 + np.array([0, 1 / 3, 0.7, 1.1])) * near * t[2]
    G = np.array([x * a * (1 - y) + x * b * y for x in al for y in (0, 0.31, 2 / 3, 1)])
    V = (G - t).dot(rot)
    F = []
    for i, j in itertools.product(range(3), range(3)):
        p = i * 4 + j
        F += [[p, p + 1, p + 4], [p + 1, p + 5, p + 4]]
    n = len(sp.V) if solid else 0
    sp.V, sp.F = np.concatenate([sp.V[:n], V]), np.concatenate([sp.F[:0] if not solid else sp.F, np.array(F) + n])
    m = len(sp.V)
    if sp.textured:
        sp.uv = hashed(2 * (m + 3), 11).reshape(-1, 2) * [3.5, 4.5] - 0.25
        sp.faces_uv = sp.F.copy()
        if sp.kind[0] == "t":
            sp.faces_uv[0] = [m, m + 1, m + 2]
        else:
            sp.uv, sp.faces_uv = sp.uv[:m], (sp.F + 1) % m
    else:
        sp.colors = 0.25 + hashed(m * sp.nc, 1).reshape(m, sp.nc)
    return sp


RAYS = [((-0.3, -0.2), (0.31, 0.17)), ((0.0, -0.3), (0.0, 0.33)), ((-0.3, 0.1), (0.2, 0.1)), ((0.05, 0.07), (0.3, 0.42)), ((-1 / 3, 1 / 7), (0.29, -0.11)), ((-0.01, 0.0), (0.012, 0.003)), ((0.7, 0.1), (0.9, 0.4))]


def planes(r, case):
    for (u, v), near, solid, k in itertools.product(RAYS, (0.5, 1.0, 30.0), (0, 1), range(len(SETTINGS))):
        if not case["all"] and (RAYS.index((u, v)) + int(near) + solid + k + case["plane"]) % 2:
            continue
        st = SETTINGS[k]
        sp = plane_spec(case, u, v, near, solid, st)
        text = "grid in the plane of the rays %s and %s, distance %g, solid=%d, pose %d, kind %s, %s" % (u, v, near, solid, case["plane"], case["kind"], st)
        r.n += 1
        r.key(text)
        w, h = sp.size
        adj = hashed(w * h * sp.nc, 5).reshape(h, w, sp.nc) - 0.4
        s = sp.make_scene()
        cam = sp.camera()
        im, z = s.render(cam, return_z_buffer=True)
        if not finite(r, "edge-on", text, image=im) or np.isnan(z).any():
            return
        s.clear_gradients()
        s.render_backward(adj)
        m = s.mesh
        if not finite(r, "edge-on gradient of", text, vertices=vb(m), light=None if st["light"] is None else s.light_directional_b, ambient=s.light_ambient_b, colors=None if sp.textured else m.vertices_colors_b, texture=s.scene_2d.texture_b if sp.textured else None):
            return
        if not sp.textured:
            s = sp.make_scene()
            s.background_image, s.background_color = None, np.array([2.0])
            d = s.render_depth(cam, depth_scale=0.3)
            s.clear_gradients()
            s.render_depth_backward(adj[:, :, :1])
            if not finite(r, "edge-on depth", text, image=d, gradient=vb(m)):
                return
        s = sp.make_scene()
        s.sigma = 0.0
        out = s.render_deferred(cam)
        if not finite(r, "edge-on deferred", text, **{k: x for k, x in out.items() if k != "depth"}):
            return
        sct, camt, leaves = torch_scene(sp)
        im = sct.render(camt)
        (im * torch.tensor(adj)).sum().backward()
        if not finite(r, "edge-on PyTorch", text, image=im.detach().numpy(), **{"gradient of " + k: x.grad.numpy() for k, x in leaves.items() if x.grad is not None}):
            return


def check(case):
    r = R()
    r.n = 0
    flat2d(r, case) if "off" in case else planes(r, case)
    return r
