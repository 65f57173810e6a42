"""C41: images drawn by a real OpenGL driver through the moderngl and pyrender modules are those of the library's own renderer."""
import itertools
import os

os.environ["PYOPENGL_PLATFORM"] = "egl"

import numpy as np

import camref
from c20 import POSES
from dlib import dr, hashed
from runner import R
from s3d import Spec

ID = "C41"
LEVEL = "exploration"
CASE_LIMIT = 300
MESHES = ("tetra", "octa", "cube", "bipyr3", "torus33", "two", "strip5", "grid22", "triangle", "plane")
RULE = ("real OpenGL contexts of the software driver (EGL): library meshes, also flat ones facing the camera, x poses x both orientations x pixel-centre conventions x image sizes x lens distortion x units 2^-6..2^8 x distances x texture coordinates inside and outside the texture x lights {ambient, directional}: "
        "every pixel of the moderngl image farther than 1/32 pixel from the projected edges (and not tied in depth) against the library's perspective-correct rendering and its deferred normals and texture coordinates; all words of 3 scenes drawn by one renderer object; "
        "every pixel of the pyrender image whose neighbourhood lies inside one face against the same, with pyrender's sRGB response, depths, and lit and unlit faces; distinct = distinct (scene, settings)")
ASSUME = ["8-bit images: agreement to 4 levels (pyrender: 7), textures with steps below 0.11 per texel", "the OpenGL driver of the sandbox (software) follows the specification; if it offers no context the check explores nothing and says so in its counts",
          "pyrender: textures whose rows are multiples of 4 bytes, coordinates inside the texture and not minified (pyrender's own upload and mipmaps)"]
NOTE = "PyOpenGL 3.1.0 misses a handler for byref arguments under Python 3.12; the check registers it in its own process"
BG = np.array([0.25, 0.5, 0.875])
TH, TW = 5, 8


def texture(k):
    i, j = np.meshgrid(np.arange(TH), np.arange(TW), indexing="ij")
    t = np.stack([0.2 + 0.1 * j, 0.9 - 0.05 * j - 0.07 * i, 0.3 + 0.1 * i + 0.01 * j], 2)
    t = np.roll(t, k, 2)
    t = np.round(t * 255) / 255 + 1e-6
    t.setflags(write=False)
    return t


TEX = [texture(0), texture(1)]
LIGHTS = (((0.0, 0.0, 0.0), 1.0), ((0.25, -0.5, -0.625), 0.125), ((-0.5, 0.25, 0.375), 0.0))


class Sc:
    """A textured scene and the camera that looks at it."""

    def __init__(self, mesh, pose, cw=False, ipc=True, size=(24, 19), dist=None, unit=1.0, near=1.0, uv="in", light=0, tex=0, bg=BG):
        sp = Spec("triangle" if mesh == "plane" else mesh, "t3", cw=cw, light=LIGHTS[light][0], ambient=LIGHTS[light][1], sigma=0.0, pc=True, ipc=ipc, cull=False, pose=pose, size=size, dist=dist, near=near)
        if mesh == "plane":  # faces the camera, at one depth
            rot, t = sp.E[:, :3], sp.E[:, 3]
            q = np.array([[-1.0, -1, 0], [1, -1, 0], [1.25, 1, 0], [-1, 0.75, 0]]) * 0.4 * t[2] * 12 / sp.K[0, 0] + [0, 0, t[2] - t[2] / 3]
            sp.V, sp.F = (q - t).dot(rot), np.array([[0, 2, 1], [0, 3, 2]])
            if cw:
                sp.F = sp.F[:, ::-1].copy()
        n = len(sp.V)
        sp.V = sp.V * unit
        sp.E = np.column_stack([sp.E[:, :3], sp.E[:, 3] * unit])
        h = hashed(2 * (n + 3), 11).reshape(-1, 2)
        sp.uv = h * [TW - 1, TH - 1] if uv == "in" else h * [TW + 5, TH + 5] - 3.0
        sp.faces_uv = sp.F.copy()
        sp.faces_uv[0] = [n, n + 1, n + 2]
        self.sp, self.light = sp, light
        self.cam = dr.Camera(sp.E.copy(), sp.K.copy(), size[1], size[0], distortion=None if dist is None else tuple(dist))
        from deodr.triangulated_mesh import ColoredTriMesh
        m = ColoredTriMesh(sp.F.copy(), sp.V.copy(), clockwise=cw, faces_uv=sp.faces_uv, uv=sp.uv, texture=TEX[tex])
        s = dr.Scene3D(sigma=0.0, perspective_correct=True, integer_pixel_centers=ipc)
        s.set_mesh(m)
        s.set_light(np.array(LIGHTS[light][0]), LIGHTS[light][1])
        s.set_background_color(bg)
        m.compute_vertex_normals()
        self.scene, self.tex, self.bg = s, TEX[tex], bg
        self.name = "mesh=%s pose=%s cw=%s ipc=%s size=%s dist=%s unit=%g near=%g uv=%s light=%s" % (mesh, pose, cw, ipc, size, dist, unit, near, uv, LIGHTS[light])

    def geometry(self):
        """Distance of every pixel centre to the nearest projected edge, and the gap between its two nearest surfaces (relative to the farthest depth)."""
        sp = self.sp
        P, z = camref.project(sp.V, sp.E, sp.K, sp.dist)
        w, h = sp.size
        off = 0.0 if sp.ipc else 0.5
        X, Y = np.meshgrid(np.arange(w) + off, np.arange(h) + off)
        edge = np.full((h, w), np.inf)
        depths = []
        for f in sp.F:
            a, b, c = P[f]
            for p, q in ((a, b), (b, c), (c, a)):
                d = q - p
                t = np.clip(((X - p[0]) * d[0] + (Y - p[1]) * d[1]) / max(d.dot(d), 1e-30), 0, 1)
                edge = np.minimum(edge, np.hypot(X - p[0] - t * d[0], Y - p[1] - t * d[1]))
            M = np.array([[a[0], b[0], c[0]], [a[1], b[1], c[1]], [1, 1, 1]])
            if abs(np.linalg.det(M)) < 1e-9:
                continue
            l = np.linalg.inv(M).dot(np.stack([X.ravel(), Y.ravel(), np.ones(X.size)]))
            with np.errstate(all="ignore"):
                depths.append(np.where((l > -1e-6).all(0), 1 / (l / z[f][:, None]).sum(0), np.inf).reshape(h, w))
        d = np.sort(np.array(depths + [np.full((h, w), np.inf)] * 2), 0)
        with np.errstate(all="ignore"):
            gap = np.where(np.isinf(d[1]), np.inf, (d[1] - d[0]) / z.max())
        return edge, gap

    def expected(self, cull):
        """(image by the library's renderer when the shading is uniform, image from its deferred buffers, lighting factor, deferred buffers)."""
        out = self.scene.render_deferred(self.cam, backface_culling=cull)
        img, zb = self.scene.render(self.cam, return_z_buffer=True, backface_culling=cull)
        cov = ~np.isinf(zb)
        n = out["normal"]
        with np.errstate(all="ignore"):
            n = n / np.linalg.norm(n, axis=2, keepdims=True)
        dot = -(n * np.array(LIGHTS[self.light][0])).sum(2)
        lum = LIGHTS[self.light][1] + np.maximum(dot, 0)
        uv = out["uv"]
        u, v = np.clip(uv[:, :, 0], 0, TW - 1), np.clip(uv[:, :, 1], 0, TH - 1)
        i, j = np.minimum(v.astype(int), TH - 2), np.minimum(u.astype(int), TW - 2)
        fu, fv = (u - j)[:, :, None], (v - i)[:, :, None]
        t = self.tex
        col = (1 - fv) * ((1 - fu) * t[i, j] + fu * t[i, j + 1]) + fv * ((1 - fu) * t[i + 1, j] + fu * t[i + 1, j + 1])
        want = np.where(cov[:, :, None], np.clip(col * lum[:, :, None], 0, 1), self.bg)
        return img, want, cov, zb, uv, dot, col


# ----- contexts
_state = {}


def driver(kind):
    """The module under test on a real context, or None when the driver offers none."""
    if kind in _state:
        return _state[kind]
    import moderngl
    if "create" not in _state:
        create = _state["create"] = moderngl.create_standalone_context
        moderngl.create_standalone_context = lambda *a, **k: create(*a, **dict(dict(backend="egl"), **k))
        other = moderngl.create_context
        moderngl.create_context = lambda *a, **k: other(*a, **dict(dict(standalone=True, backend="egl"), **k))
    try:
        moderngl.create_standalone_context().release()
        ok = True
    except Exception as e:
        _state[kind] = None
        print("no OpenGL context: %r" % e)
        return None
    if kind == "pyrender":
        try:
            import ctypes
            import OpenGL.GL  # noqa: F401
            from OpenGL.arrays.ctypesparameters import CtypesParameterHandler
            CtypesParameterHandler().register([type(ctypes.byref(ctypes.c_int()))])
            import pyrender
            r = pyrender.OffscreenRenderer(4, 4)
            s = pyrender.Scene(bg_color=[0, 0, 0])
            s.add(pyrender.PerspectiveCamera(yfov=1.0))
            r.render(s)
            r.delete()
        except Exception as e:
            print("pyrender does not work here: %r" % e)
            ok = False
    _state[kind] = ok or None
    return _state[kind]


def cases(tier):
    th = tier == "thorough"
    poses = range(len(POSES))
    for m, p in itertools.product(MESHES, poses):
        yield dict(kind="moderngl", mesh=m, pose=p, all=th)
    for a in range(len(WORDSCENES)):
        yield dict(kind="words", first=a, depth=4 if th else 3)
    for m, p in itertools.product(MESHES, poses if th else poses[::2]):
        yield dict(kind="pyrender", mesh=m, pose=p, all=th)


WORDSCENES = [dict(mesh="tetra", pose=0), dict(mesh="octa", pose=1, tex=1, light=1), dict(mesh="tetra", pose=0, tex=1, size=(19, 24)), dict(mesh="octa", pose=2, ipc=False, light=2, bg=BG[::-1]), dict(mesh="plane", pose=3, dist=(0.1, -0.05, 0.02, 0.03, 0.01), near=2.0)]
DIST = (0.1, -0.05, 0.02, 0.03, 0.01)


def variants(all_):
    base = [dict(), dict(cw=True, ipc=False, light=1), dict(dist=DIST, uv="out"), dict(size=(13, 40), light=2, near=1.5), dict(unit=2.0**-6, ipc=False), dict(unit=2.0**8, tex=1, uv="out", cw=True), dict(near=30.0), dict(light=1, size=(40, 13)), dict(light=2, dist=(0, 0.1, 0, 0, 0.2))]
    if all_:
        base = [dict(cw=c, ipc=i, light=li, dist=d, uv=u, size=s, unit=un, near=ne) for c, i, li, d, u in itertools.product((False, True), (True, False), range(3), (None, DIST), ("in", "out")) for s, un, ne in (((24, 19), 1.0, 1.0), ((13, 40), 2.0**8, 1.5), ((61, 47), 2.0**-6, 1.0), ((40, 13), 1.0, 30.0))]
    return base


def check(case):
    r = R()
    r.n = 0
    if not driver(case["kind"].replace("words", "moderngl")):
        r.count("no driver", 1)
        r.n = 1
        return r
    if case["kind"] == "moderngl":
        from deodr.opengl.moderngl import OffscreenRenderer
        for v in variants(case["all"]):
            s = Sc(case["mesh"], POSES[case["pose"]], **v)
            o = OffscreenRenderer()
            try:
                o.set_scene(s.scene)
                img = o.render(s.cam)
            finally:
                o.ctx.release()
            compare(r, s, img, s.name)
    elif case["kind"] == "words":
        from deodr.opengl.moderngl import OffscreenRenderer
        sc = [Sc(**d) if "pose" not in d else Sc(**dict(d, pose=POSES[d["pose"]])) for d in WORDSCENES]
        for word in itertools.product(range(len(sc)), repeat=case["depth"] - 1):
            o = OffscreenRenderer()
            try:
                for k, i in enumerate((case["first"],) + word):
                    o.set_scene(sc[i].scene)
                    img = o.render(sc[i].cam)
                    compare(r, sc[i], img, "scene %d after scenes %s: %s" % (i, ((case["first"],) + word)[:k], sc[i].name))
            finally:
                o.ctx.release()
    else:
        pyr(r, case)
    return r


def compare(r, s, img, text):
    """moderngl image against the library's."""
    r.n += 1
    r.key(text)
    if img.shape != (s.sp.size[1], s.sp.size[0], 3) or img.dtype != np.uint8:
        return r.bad("shape", "%s: image of shape %s, type %s" % (text, img.shape, img.dtype))
    if not hasattr(s, "cache"):
        edge, gap = s.geometry()
        s.cache = (edge > 1 / 32) & (gap > 2e-3), s.expected(False)
    sure, (lib, want, cov, zb, uv, dot, col) = s.cache
    r.count("pixels", int(sure.sum()))
    r.count("covered pixels", int((sure & cov).sum()))
    for name, w in (("deferred buffers", want), ("rendering", np.clip(lib, 0, 1))):
        if name == "rendering" and s.light:
            continue  # the library interpolates the lighting of the vertices, OpenGL the normals
        d = np.where(sure, np.abs(img / 255.0 - w).max(2), 0)
        if d.max(initial=0) > 4 / 255:
            y, x = np.unravel_index(d.argmax(), d.shape)
            return r.bad("moderngl image", "%s: pixel (%d, %d) is %s, by the library's %s %s; %d of %d pixels differ" % (text, x, y, img[y, x], name, np.round(w[y, x] * 255, 1), (d > 4 / 255).sum(), sure.sum()))


def pyr(r, case):
    from deodr.opengl import pyrender as dp
    vs = [dict(), dict(cw=True, ipc=False), dict(size=(20, 32), unit=2.0**4), dict(light=1)] + ([dict(ipc=False, unit=2.0**-3), dict(light=2, cw=True), dict(light=1, near=1.5)] if case["all"] else [])
    for v in vs:
        v = dict(dict(size=(48, 40)), **v)
        s = Sc(case["mesh"], POSES[case["pose"]], **v)
        img, depth = dp.render(s.scene, s.cam)
        r.n += 1
        r.key("pyrender", s.name)
        h, w = s.sp.size[1], s.sp.size[0]
        if img.shape[:2] != (h, w) or depth.shape != (h, w):
            r.bad("shape", "%s: pyrender image of shape %s" % (s.name, img.shape))
            continue
        edge, gap = s.geometry()
        lib, want, cov, zb, uv, dot, col = s.expected(True)
        g = np.zeros((h, w))
        for ax in (0, 1):
            d = np.abs(np.diff(uv, axis=ax)).max(2)
            for sl in (slice(0, -1), slice(1, None)):
                k = (sl, slice(None)) if ax == 0 else (slice(None), sl)
                g[k] = np.maximum(g[k], d)
        sure = (edge > 0.8) & (gap > 2e-3)
        text = "pyrender %s" % s.name
        bad = sure & ((depth > 0) != cov)
        if bad.any():
            y, x = np.argwhere(bad)[0]
            r.bad("pyrender coverage", "%s: pixel (%d, %d) %s; %d of %d pixels differ" % (text, x, y, "is empty" if cov[y, x] else "is covered", bad.sum(), sure.sum()))
            continue
        # depth is taken at a sample of the pixel, within half a pixel of its centre
        ins = sure & cov & (edge > 1.5)
        lo, hi = zb.copy(), zb.copy()
        for dy, dx in itertools.product((-1, 0, 1), repeat=2):
            o = np.roll(np.roll(zb, dy, 0), dx, 1)
            lo, hi = np.minimum(lo, o), np.maximum(hi, o)
        with np.errstate(all="ignore"):
            bad = ins & ((depth < lo - 2e-3 * np.abs(lo)) | (depth > hi + 2e-3 * np.abs(hi)))
        if bad.any():
            y, x = np.argwhere(bad)[0]
            r.bad("pyrender depth", "%s: depth %g at pixel (%d, %d), the library's %g" % (text, depth[y, x], x, y, zb[y, x]))
            continue
        # textures with pyrender's sRGB response to the ambient light
        amb = LIGHTS[s.light][1]
        lin = np.where(col < 0.04045, col / 12.92, ((col + 0.055) / 1.055) ** 2.4)
        dark = (np.clip(lin * amb, 0, 1) ** (1 / 2.2)) * 255
        tex = sure & (g < 0.9)
        r.count("pixels", int(sure.sum()))
        r.count("pyrender textured pixels", int((tex & cov).sum()))
        eq = tex & cov & ((dot < -0.05) if s.light else True)
        d = np.where(eq, np.abs(img[:, :, :3] - dark).max(2), 0)
        d = np.where(sure & ~cov, np.abs(img[:, :, :3] - s.bg * 255).max(2), d)
        if d.max(initial=0) > 7:
            y, x = np.unravel_index(d.argmax(), d.shape)
            r.bad("pyrender image", "%s: pixel (%d, %d) is %s instead of %s" % (text, x, y, img[y, x], np.round(dark[y, x] if cov[y, x] else s.bg * 255, 1)))
            continue
        lit = tex & cov & (dot > 0.15)
        if s.light and (img[lit][:, :3].astype(float).sum(1) < dark[lit].sum(1) + 15).any():
            r.bad("pyrender light", "%s: pixels that face the light are not lit" % text)
