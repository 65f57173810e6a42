"""Access to the code under test and to the reference model; scene helpers."""
import ctypes
import itertools
import os
import warnings

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")

import deodr  # noqa: E402

if os.environ.get("VERIF_PKG"):
    assert os.path.realpath(deodr.__file__).startswith(os.path.realpath(os.environ["VERIF_PKG"])), deodr.__file__
from deodr import differentiable_renderer as dr  # noqa: E402

AMB_UV = 16


class RefScene(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int32) for n in (
        "nb_triangles nb_vertices nb_uv height width nb_colors tex_h tex_w clockwise backface_culling "
        "strict_edge perspective_correct integer_pixel_centers exact defect").split()] + [
        (n, ctypes.c_void_p) for n in (
            "faces faces_uv depths uv ij shade colors edgeflags textured shaded texture "
            "background_image background_color").split()]


_ref = ctypes.CDLL(os.environ["VERIF_REF"])
_P = ctypes.c_void_p
_ref.ref_render.argtypes = [_P, ctypes.c_double] + [_P] * 7
_ref.ref_grad.argtypes = [_P, ctypes.c_double] + [_P] * 7


def _ptr(a):
    return None if a is None else a.ctypes.data


class Ref:
    """Reference view of a scene-like object (any object with Scene2DBase fields)."""

    def __init__(self, s, exact=True):
        self.keep = {}
        r = RefScene()
        k = self.keep

        def put(name, a, dt):
            k[name] = np.array(a, dtype=dt, order="C")  # private copy
            setattr(r, name, k[name].ctypes.data)

        put("faces", s.faces, np.uint32)
        put("faces_uv", s.faces_uv, np.uint32)
        for n in ("depths", "uv", "ij", "shade", "colors", "texture"):
            put(n, getattr(s, n), np.float64)
        for n in ("edgeflags", "textured", "shaded"):
            put(n, np.asarray(getattr(s, n)).astype(bool), np.uint8)
        if s.background_image is not None:
            put("background_image", s.background_image, np.float64)
        else:
            put("background_color", s.background_color, np.float64)
        r.nb_triangles = len(s.faces)
        r.nb_vertices = len(s.depths)
        r.nb_uv = len(s.uv)
        r.height, r.width = s.height, s.width
        r.nb_colors = s.colors.shape[1]
        t = np.asarray(s.texture)
        r.tex_h, r.tex_w = (t.shape[0], t.shape[1]) if t.ndim == 3 else (0, 0)
        r.clockwise = bool(s.clockwise)
        r.backface_culling = bool(s.backface_culling)
        r.strict_edge = bool(s.strict_edge)
        r.perspective_correct = bool(s.perspective_correct)
        r.integer_pixel_centers = bool(s.integer_pixel_centers)
        r.exact = bool(exact)
        self.r = r
        self.shape = (s.height, s.width, r.nb_colors)

    def render(self, sigma, obs=None):
        h, w, c = self.shape
        image = np.empty((h, w, c))
        z = np.empty((h, w))
        err = np.empty((h, w))
        amb = np.empty((h, w), dtype=np.uint8)
        owner = np.empty((h, w), dtype=np.int32)
        stats = np.zeros(4, dtype=np.int64)
        o = None if obs is None else np.ascontiguousarray(obs, dtype=np.float64)
        _ref.ref_render(ctypes.byref(self.r), sigma, _ptr(o), _ptr(image), _ptr(z), _ptr(err), _ptr(amb), _ptr(owner), _ptr(stats))
        self.stats = stats
        self.owner = owner
        return image, z, err, amb

    def grad(self, sigma, adj, obs=None, defect=False):
        """Exact derivatives; defect=True gives those of the known finding C07 instead (see known_findings.json)."""
        r = self.r
        r.defect = defect
        ij_b = np.zeros((r.nb_vertices, 2))
        colors_b = np.zeros((r.nb_vertices, r.nb_colors))
        uv_b = np.zeros((r.nb_uv, 2))
        shade_b = np.zeros((r.nb_vertices,))
        tex_b = np.zeros((r.tex_h, r.tex_w, r.nb_colors))
        o = None if obs is None else np.ascontiguousarray(obs, dtype=np.float64)
        a = np.ascontiguousarray(adj, dtype=np.float64)
        _ref.ref_grad(ctypes.byref(r), sigma, _ptr(o), _ptr(a), _ptr(ij_b), _ptr(colors_b), _ptr(uv_b), _ptr(shade_b), _ptr(tex_b))
        return dict(ij_b=ij_b, colors_b=colors_b, uv_b=uv_b, shade_b=shade_b, texture_b=tex_b)


def hashed(n, salt=0):
    """n fixed, generic-looking values in (0,1) that single precision does not hold (a deterministic low-discrepancy filler for attribute values)."""
    i = np.arange(1, n + 1)
    return np.floor(((i * 0.6180339887498949 + salt * 0.7548776662466927) % 1.0) * 256) / 256 + 1 / 900


def scene(ij, faces, depths, *, width, height, nb_colors=3, colors=None, textured=None, shaded=None, uv=None, faces_uv=None,
          shade=None, texture=None, edgeflags=None, background=None, background_image=None, **flags):
    """Builds a deodr.Scene2D with defaults that make every pixel's origin identifiable."""
    ij = np.array(ij, dtype=np.float64).reshape(-1, 2)
    faces = np.array(faces, dtype=np.uint32).reshape(-1, 3)
    nv, nt = len(ij), len(faces)
    if colors is None:
        colors = 0.25 + hashed(nv * nb_colors, 1).reshape(nv, nb_colors)
    if textured is None:
        textured = np.zeros(nt, dtype=bool)
    textured = np.array(textured, dtype=bool)
    if shaded is None:
        shaded = textured.copy()
    if uv is None:
        uv = np.zeros((nv, 2))
    if faces_uv is None:
        faces_uv = faces
    if shade is None:
        shade = 0.5 + hashed(nv, 3)
    if texture is None:
        texture = np.zeros((0, 0)) if not textured.any() else 0.25 + hashed(4 * 5 * nb_colors, 5).reshape(4, 5, nb_colors)
    if edgeflags is None:
        edgeflags = np.ones((nt, 3), dtype=bool)
    kw = dict(clockwise=False, backface_culling=True, strict_edge=True, perspective_correct=False, integer_pixel_centers=True)
    kw.update(flags)
    if background_image is None and background is None:
        background = -1.0 - np.arange(nb_colors) / 4
    return dr.Scene2D(
        faces=faces, faces_uv=np.array(faces_uv, dtype=np.uint32), ij=ij, depths=np.array(depths, dtype=np.float64), textured=textured,
        uv=np.array(uv, dtype=np.float64), shade=np.array(shade, dtype=np.float64), colors=np.array(colors, dtype=np.float64),
        shaded=np.array(shaded, dtype=bool), edgeflags=np.array(edgeflags, dtype=bool).reshape(nt, 3), height=height, width=width,
        nb_colors=nb_colors, texture=np.array(texture, dtype=np.float64),
        background_image=None if background_image is None else np.array(background_image, dtype=np.float64),
        background_color=None if background is None else np.array(background, dtype=np.float64), **kw)


def close(a, b, tol=1e-8):
    """max error of a vs b relative to 1+|b|; inf==inf; nan never close."""
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    eq = a == b
    d = np.abs(a - b)
    return bool(np.all(eq | (d <= tol * (1 + np.abs(b)))))


def close_scaled(a, b, scale, tol=1e-8):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | (np.abs(a - b) <= tol * scale)))


def diff_text(name, a, b, ok=None):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return "%s: shape %s instead of %s" % (name, a.shape, b.shape)
    with np.errstate(all="ignore"):
        d = np.where(a == b, 0, np.abs(a - b))
        d = np.where(np.isnan(d), np.inf, d)
    if ok is not None:
        d = np.where(ok, 0, d)
    i = np.unravel_index(np.argmax(d), d.shape)
    return "%s%s: got %r, expected %r" % (name, list(map(int, i)), float(a[i]), float(b[i]))


def compare_forward(r, tag, s, image, z, ref, sigma, obs=None, err=None, tol=1e-8):
    """Compares against the reference outside ambiguous pixels. Returns the mask of unambiguous pixels."""
    ri, rz, re, amb = ref.render(sigma, obs)
    ok = (amb & 15) == 0
    if np.shape(image) != np.shape(ri) or np.shape(z) != np.shape(rz):
        r.bad(tag + ":shape", "image %s z %s" % (np.shape(image), np.shape(z)))
        return ok
    for name, a, b in (("image", image, ri), ("z_buffer", z, rz)) + ((("err_buffer", err, re),) if obs is not None else ()):
        if obs is not None and name == "image":
            b = ref.render(0)[0]
        if np.shape(a) != np.shape(b):
            r.bad(tag + ":shape", "%s %s" % (name, np.shape(a)))
            continue
        m = ok if name != "image" else ok[..., None]
        if obs is not None and name != "err_buffer":
            ok0 = (ref.render(0)[3] & 15) == 0
            m = ok0 if name != "image" else ok0[..., None]
        elif name == "z_buffer" and sigma > 0:
            ok0 = (ref.render(0)[3] & 15) == 0
            m = ok0
        with np.errstate(all="ignore"):
            good = (a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b))) | ~m
        if not good.all():
            r.bad(tag + ":" + name, diff_text(name, a, b, ok=good) + " (sigma=%g)" % sigma)
    if obs is not None or sigma > 0:
        ref.render(sigma, obs)
    return ok


def product(**kw):
    names = list(kw)
    for vals in itertools.product(*kw.values()):
        yield dict(zip(names, vals))


def rotations24():
    """The 24 rotations of the cube."""
    out = []
    for p in itertools.permutations(range(3)):
        for sg in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3))
            for i in range(3):
                m[i, p[i]] = sg[i]
            if np.linalg.det(m) > 0:
                out.append(m)
    return out


def quat_rot(q):
    x, y, z, w = np.array(q, dtype=np.float64) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def rational_rotations(r=1, limit=None):
    """All rotations given by integer quaternions with entries in [-r, r] (one per +-q, no duplicates)."""
    out, seen = [], set()
    for q in itertools.product(range(-r, r + 1), repeat=4):
        if q == (0, 0, 0, 0):
            continue
        first = next(c for c in q if c)
        if first < 0:
            continue
        m = quat_rot(q)
        k = tuple(np.round(m, 9).ravel() + 0.0)
        if k in seen:
            continue
        seen.add(k)
        out.append((q, m))
    return out[:limit] if limit else out


def vb(mesh):
    """Gradient of the vertices of a mesh."""
    for name in ("_vertices_b", "vertices_b"):
        if hasattr(mesh, name):
            return getattr(mesh, name)
    raise AttributeError("vertices_b")
