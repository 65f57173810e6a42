"""C10: every single fault and every pair of faults of a catalogue, at every entry point, is rejected with an exception and leaves the scene usable."""
import io
import contextlib
import itertools
import os

import numpy as np

from dlib import dr, hashed, scene, vb
from runner import R

ID = "C10"
LEVEL = "fault_enumeration"
VARIANT = "asan"
CASE_LIMIT = 200
RULE = ("every fault of the catalogue (each array of the scene, gradient array, buffer argument and mode; wrong rank, row count, column count, dtype, index, missing, contradictory) "
        "x every entry point it concerns x base scenes x size of the triangle list, then every pair of faults on different fields; the call must raise, canaries and untouched arrays must be intact, "
        "the process must survive under AddressSanitizer, and after undoing the fault the same scene object must give the baseline results bit for bit; "
        "distinct = distinct (fault, entry point, exception type)")
ASSUME = ["faults marked 'either' (e.g. other integer types, non-contiguous buffers) may be rejected or give the baseline result", "asserts enabled (no python -O)",
          "check_valid=False is the caller's renunciation of the checks"]
ENTRIES = ("render", "render_error", "backward", "error_backward", "compare", "compare_error", "low", "low_error", "low_b", "low_error_b")
FWD = ("render", "render_error", "compare", "compare_error", "low", "low_error")
BWD = ("backward", "error_backward", "low_b", "low_error_b", "compare", "compare_error")
LOW = ("low", "low_error", "low_b", "low_error_b")
ERR = ("render_error", "compare_error", "low_error", "low_error_b")


class World:
    pass


def base(b):
    """Valid scene + arguments. b: bit 0 background image, bit 1 sigma, bits 2-3 kind (untextured / all textured / mixed / single triangle)."""
    kind = b >> 2 & 3
    n = 1 if kind == 3 else 3
    pts = [(-0.75, -1.25), (0.5, 4.75), (3.25, 0.5), (0.25, 0.25), (1.5, 4.25), (4.5, 2.25), (2.25, 0), (1, 3.5), (3.5, 3.25)][: 3 * n]
    t = np.array([kind == 1 or (kind == 2 and k == 1) for k in range(n)])
    kw = dict(width=4, height=5, nb_colors=3)
    if t.any():
        kw.update(textured=t, texture=hashed(2 * 3 * 3, 7).reshape(2, 3, 3), uv=hashed(2 * (3 * n + 2), 4).reshape(-1, 2) * 3 - 0.5,
                  faces_uv=(np.arange(3 * n).reshape(n, 3) + 2))
    if b & 1:
        kw["background_image"] = hashed(60, 9).reshape(5, 4, 3)
    s = scene(pts, np.arange(3 * n).reshape(n, 3), np.tile([1.0, 2.0, 1.5], n) + np.repeat(np.arange(n), 3), **kw)
    w = World()
    w.s = s
    w.sigma = 1.5 if b & 2 else 0.0
    w.a = dict(image=np.zeros((5, 4, 3)), z_buffer=np.zeros((5, 4)), obs=hashed(60, 2).reshape(5, 4, 3), err_buffer=np.zeros((5, 4)),
               image_b=hashed(60, 3).reshape(5, 4, 3), err_buffer_b=hashed(20, 5).reshape(5, 4))
    w.hist = True
    w.mix = False
    return w


SCENE_ARRAYS = ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture", "background_image", "background_color")
GRADS = ("uv_b", "ij_b", "shade_b", "colors_b", "texture_b")


def prepare_call(entry, w):
    """Runs whatever the entry point needs before (the render that belongs to a backward)."""
    s, a = w.s, w.a
    with contextlib.redirect_stdout(io.StringIO()):
        if entry == "backward":
            s.render(w.sigma)
        elif entry == "error_backward":
            s.render_error(a["obs"], w.sigma)
        elif entry == "low_b":
            dr.renderScene(s, w.sigma, a["image"], a["z_buffer"])
        elif entry == "low_error_b":
            dr.renderScene(s, w.sigma, a["image"], a["z_buffer"], True, a["obs"], a["err_buffer"])
    for g in GRADS:
        if getattr(s, g) is not None:
            getattr(s, g).fill(0)


def grads(s):
    return tuple(getattr(s, g).copy() for g in GRADS)


def call(entry, w):
    s, a = w.s, w.a
    if entry == "render":
        return s.render(w.sigma)
    if entry == "render_error":
        return s.render_error(a["obs"], w.sigma)
    if entry == "backward":
        s.render_backward(a["image_b"])
        return grads(s)
    if entry == "error_backward":
        s.render_error_backward(a["err_buffer_b"])
        return grads(s)
    if entry == "compare":
        return s.render_compare_and_backward(a["obs"], w.sigma) + grads(s)
    if entry == "compare_error":
        return s.render_compare_and_backward(a["obs"], w.sigma, antialiase_error=True) + grads(s)
    if entry == "low":
        dr.renderScene(s, w.sigma, a["image"], a["z_buffer"])
        return a["image"].copy(), a["z_buffer"].copy()
    if entry == "low_error":
        dr.renderScene(s, w.sigma, a["image"], a["z_buffer"], True, a["obs"], a["err_buffer"])
        return a["image"].copy(), a["z_buffer"].copy(), a["err_buffer"].copy()
    if entry == "low_b":
        dr.renderSceneB(s, w.sigma, a["image"], a["z_buffer"], a["image_b"], False, None, None, None)
        return grads(s)
    if entry == "low_error_b":
        dr.renderSceneB(s, w.sigma, a["image"], a["z_buffer"], None, True, a["obs"], a["err_buffer"], a["err_buffer_b"])
        return grads(s)


def catalogue():
    """(name, fields, entries, 'reject'|'either', applies(world), mutate(world))."""
    C = []

    def sc(field, name, f, entries=ENTRIES, kind="reject", when=lambda w: True):
        def mut(w):
            setattr(w.s, field, f(getattr(w.s, field)))
        C.append((field + ":" + name, (field,), entries, kind, when, mut))

    def has(field):
        return lambda w: getattr(w.s, field) is not None

    tex = lambda w: w.s.textured.any()  # noqa: E731
    less = lambda x: x[:-1].copy()  # noqa: E731
    more = lambda x: np.concatenate([x, x[-1:]])  # noqa: E731
    # rows and columns of every array
    for f in ("faces", "faces_uv", "ij", "uv", "edgeflags"):
        sc(f, "1d", lambda x: x.flatten())
        sc(f, "cols-1", lambda x: x[:, :-1].copy())
        sc(f, "cols+1", lambda x: np.column_stack([x, x[:, -1:]]))
        sc(f, "3d", lambda x: x[:, :, None].copy())
    for f in ("faces", "faces_uv", "ij", "depths", "shade", "colors", "edgeflags", "textured", "shaded"):
        sc(f, "rows-1", less)
        sc(f, "rows+1", more)
        sc(f, "rows0", lambda x: x[:0].copy())
    sc("uv", "rows0", lambda x: x[:0].copy())
    sc("uv", "too few rows", lambda x: x[:-1].copy())
    sc("depths", "2 columns", lambda x: np.column_stack([x, x]))
    for f in ("shade", "textured", "shaded"):
        sc(f, "2d", lambda x: np.column_stack([x, x]))
    sc("colors", "1d", lambda x: x[:, 0].copy())
    sc("colors", "channels-1", lambda x: x[:, :-1].copy())
    sc("colors", "channels+1", lambda x: np.column_stack([x, x[:, -1:]]))
    sc("colors", "channels0", lambda x: x[:, :0].copy())

    def setidx(v, dtype, pos):
        def f(x):
            y = x.astype(dtype)
            y.reshape(-1)[pos % y.size] = v
            return y
        return f

    for pos in (0, -1):
        sc("faces", "index=n @%d" % pos, lambda x, pos=pos: setidx(x.size if x.size > 3 else 3, np.uint32, pos)(x))
        sc("faces", "index=2^32-1 @%d" % pos, setidx(2 ** 32 - 1, np.uint32, pos))
        sc("faces", "index=-1 int64 @%d" % pos, setidx(-1, np.int64, pos))
        sc("faces_uv", "index=-1 int32 @%d" % pos, setidx(-1, np.int32, pos))
        sc("faces_uv", "index=-2^32 int64 @%d" % pos, setidx(-2 ** 32, np.int64, pos))
        sc("faces_uv", "index=2^31 @%d" % pos, setidx(2 ** 31, np.uint32, pos))
        sc("faces_uv", "index=2^32 int64 @%d" % pos, setidx(2 ** 32, np.int64, pos))
        C.append(("faces_uv:index=n @%d" % pos, ("faces_uv", "uv"), ENTRIES, "reject", lambda w: True,
                  lambda w, pos=pos: setattr(w.s, "faces_uv", setidx(len(w.s.uv), np.uint32, pos)(w.s.faces_uv))))
    sc("faces", "int64", lambda x: x.astype(np.int64), kind="either")
    sc("faces", "int32", lambda x: x.astype(np.int32), kind="either")
    sc("faces", "non contiguous", lambda x: np.asfortranarray(x), kind="either")
    sc("ij", "non contiguous", lambda x: np.asfortranarray(x), kind="either")
    sc("colors", "strided", lambda x: np.repeat(x, 2, axis=1)[:, ::2], kind="either")
    for f in SCENE_ARRAYS[:-2]:
        sc(f, "None", lambda x: None)
    for f, s in (("texture", "channels-1"), ("texture", "channels+1")):
        sc(f, s, lambda x, s=s: x[:, :, :-1].copy() if s.endswith("-1") else np.concatenate([x, x[:, :, -1:]], 2), when=tex)
    sc("texture", "2d", lambda x: x[:, :, 0].copy(), when=tex)
    sc("texture", "empty", lambda x: np.zeros((0, 0)), when=tex)
    sc("texture", "no rows", lambda x: x[:0].copy(), when=tex)
    sc("texture", "no columns", lambda x: x[:, :0].copy(), when=tex)
    sc("texture", "1d empty", lambda x: np.zeros(0))
    for n in ("h-1", "h+1", "w-1", "w+1", "c-1", "c+1"):
        ax = "hwc".index(n[0])
        sc("background_image", n, lambda x, n=n, ax=ax: resize(x, ax, n), when=has("background_image"))
    sc("background_image", "2d", lambda x: x[:, :, 0].copy(), when=has("background_image"))
    sc("background_image", "none at all", lambda x: None, when=has("background_image"))
    sc("background_color", "c-1", less, when=has("background_color"))
    sc("background_color", "c+1", more, when=has("background_color"))
    sc("background_color", "2d", lambda x: np.column_stack([x, x]), when=has("background_color"))
    sc("background_color", "none at all", lambda x: None, when=has("background_color"))

    def both(w):
        if w.s.background_color is None:
            w.s.background_color = np.zeros(3)
        else:
            w.s.background_image = np.zeros((5, 4, 3))
    C.append(("background:both", ("background_image", "background_color"), ENTRIES, "reject", lambda w: True, both))
    for d in ("height", "width"):
        for k in (-1, 1, 3):
            sc(d, "%+d" % k, lambda x, k=k: x + k, entries=LOW + ("backward", "error_backward"))
        sc(d, "-10", lambda x: x - 10)
    sc("nb_colors", "+1", lambda x: x + 1, entries=("render", "render_error", "compare", "compare_error"))
    sc("nb_colors", "-1", lambda x: x - 1, entries=("render", "render_error", "compare", "compare_error"))
    # gradient arrays
    for g in GRADS:
        w0 = (lambda w: w.s.texture.size > 0) if g == "texture_b" else (lambda w: True)
        sc(g, "None", lambda x: None, entries=BWD)
        sc(g, "rows-1", less, entries=BWD, when=w0)
        sc(g, "rows+1", more, entries=BWD, when=w0)
        if g != "shade_b":
            sc(g, "cols-1", lambda x: x[:, :-1].copy(), entries=BWD, when=w0)
            sc(g, "cols+1", lambda x: np.concatenate([x, x[:, -1:]], 1), entries=BWD, when=w0)
        else:
            sc(g, "2d", lambda x: np.column_stack([x, x]), entries=BWD)
    sc("texture_b", "channels-1", lambda x: x[:, :, :-1].copy(), entries=BWD, when=tex)
    sc("texture_b", "empty", lambda x: np.zeros((0, 0)), entries=BWD, when=tex)
    # modes
    sc("perspective_correct", "on", lambda x: True, entries=BWD)
    sc("backface_culling", "off", lambda x: False, entries=BWD)
    # buffers
    uses = dict(image=LOW, z_buffer=LOW, obs=ERR, err_buffer=("low_error", "low_error_b"), image_b=("backward", "low_b"), err_buffer_b=("error_backward", "low_error_b"))

    def arg(name, what, f, entries, kind="reject"):
        def mut(w):
            w.a[name] = f(w.a[name])
        C.append((name + ":" + what, (name,), entries, kind, lambda w: True, mut))

    for n, e in uses.items():
        three = n in ("image", "obs", "image_b")
        for q in ("h-1", "h+1", "w-1", "w+1") + (("c-1", "c+1") if three else ()):
            ax = "hwc".index(q[0])
            arg(n, q, lambda x, q=q, ax=ax: resize(x, ax, q), e)
        arg(n, "None", lambda x: None, e)
        arg(n, "other rank", (lambda x: x[:, :, 0].copy()) if three else (lambda x: x[:, :, None].copy()), e)
        arg(n, "flat", lambda x: x.flatten(), e)
        arg(n, "transposed shape", lambda x: np.ascontiguousarray(np.swapaxes(x, 0, 1)), e)
        arg(n, "float32", lambda x: x.astype(np.float32), [k for k in e if k.startswith("low")], "either32")
        arg(n, "fortran order", lambda x: np.asfortranarray(x), e, "either")
        arg(n, "strided", lambda x: np.repeat(x, 2, axis=1)[:, ::2], e, "either")
    arg("obs", "h-1 in compare", lambda x: resize(x, 0, "h-1"), ("compare",))
    arg("obs", "w+1 in compare", lambda x: resize(x, 1, "w+1"), ("compare",))
    arg("obs", "c+1 in compare", lambda x: resize(x, 2, "c+1"), ("compare",))

    # order of calls
    def forget(w):
        if hasattr(w.s, "store_backward"):
            del w.s.store_backward
    C.append(("history:no render", ("history",), ("backward", "error_backward"), "reject", lambda w: True, forget))
    C.append(("history:other mode rendered last (error)", ("history",), ("backward",), "reject", lambda w: True, lambda w: w.s.render_error(np.zeros((5, 4, 3)), 1.0)))
    C.append(("history:other mode rendered last (image)", ("history",), ("error_backward",), "reject", lambda w: True, lambda w: w.s.render(1.0)))
    return C


def resize(x, ax, how):
    if how.endswith("-1"):
        return np.ascontiguousarray(np.delete(x, -1, axis=ax))
    return np.concatenate([x, np.take(x, [-1], axis=ax)], axis=ax)


CAT = catalogue()


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


FIELDS = SCENE_ARRAYS + GRADS + ("height", "width", "nb_colors", "perspective_correct", "backface_culling")


def attempt(r, b, entry, faults):
    """Applies faults, calls, judges, repairs, calls again. Returns False when not applicable."""
    w = base(b)
    for f in faults:
        if not f[4](w):
            return False
    prepare_call(entry, w)
    names = " + ".join(f[0] for f in faults)
    orig = {f: getattr(w.s, f) for f in FIELDS}
    copies = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in orig.items()}
    args = {k: v.copy() for k, v in w.a.items()}
    hist = getattr(w.s, "store_backward", None)
    kinds = [f[3] for f in faults]
    r.n += 1
    out = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for f in faults:
                f[5](w)
    except Exception:
        return False  # the two faults cannot be combined
    faulty = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in w.a.items()}
    exc = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = call(entry, w)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        exc = e
    r.key(names if len(faults) == 1 else "pair", entry, type(exc).__name__)
    w2 = base(b)
    prepare_call(entry, w2)
    want = call(entry, w2)
    if exc is None:
        if "reject" in kinds:
            r.bad("accepted:" + faults[0][0], "base %d, %s with %s is not rejected" % (b, entry, names))
        elif "either32" not in kinds and not same(out, want):
            r.bad("wrong result:" + faults[0][0], "base %d, %s with %s is accepted but gives another result" % (b, entry, names))
    else:
        # a rejected call leaves the caller's inputs alone
        for k, v in faulty.items():
            if isinstance(v, np.ndarray) and k in ("obs", "image_b", "err_buffer_b") and not np.array_equal(v, w.a[k]):
                r.bad("input changed", "base %d, %s with %s changed %s although it raised" % (b, entry, names, k))
        for k in SCENE_ARRAYS:
            if isinstance(copies[k], np.ndarray) and not np.array_equal(copies[k], orig[k]):
                r.bad("scene changed", "base %d, %s with %s changed %s" % (b, entry, names, k))
        if entry not in ("compare", "compare_error"):
            for k in GRADS:
                if isinstance(copies[k], np.ndarray) and not np.array_equal(copies[k], orig[k]):
                    r.bad("gradient changed", "base %d, %s with %s changed %s although it raised" % (b, entry, names, k))
    # repair and retry on the same object
    for k, v in orig.items():
        setattr(w.s, k, v)
    for g in GRADS:
        getattr(w.s, g).fill(0)
    w.a = args
    if hist is not None:
        w.s.store_backward = hist
    got = call(entry, w)
    if not same(got, want):
        r.bad("after repair", "base %d: after %s with %s was rejected and repaired, the result differs from a fresh scene" % (b, entry, names))
    return True


def cases(tier):
    for b in range(16):
        for e in range(len(ENTRIES)):
            yield dict(kind="single", base=b, entry=e)
    bases = (7, 10) if tier == "quick" else range(16)
    for b in bases:
        for e in range(len(ENTRIES)):
            for i in range(len(CAT)):
                if ENTRIES[e] in CAT[i][2]:
                    yield dict(kind="pair", base=b, entry=e, first=i)
    for k in range(len(SCENE3D)):
        yield dict(kind="scene3d", k=k)


def check(case):
    r = R()
    r.n = 0
    if case["kind"] == "scene3d":
        scene3d(r, SCENE3D[case["k"]])
        return r
    entry = ENTRIES[case["entry"]]
    if case["kind"] == "single":
        for f in CAT:
            if entry in f[2]:
                if attempt(r, case["base"], entry, [f]):
                    r.count("faults")
    else:
        f = CAT[case["first"]]
        for g in CAT[case["first"] + 1:]:
            if entry in g[2] and not set(f[1]) & set(g[1]) and "either32" not in (f[3], g[3]):
                if cancels(f, g):
                    continue
                if attempt(r, case["base"], entry, [f, g]):
                    r.count("pairs")
    return r


def cancels(f, g):
    """Pairs that together describe another consistent call."""
    n = {f[0], g[0]}
    if any(x.startswith("textured:") for x in n) and any(x.startswith("texture:") for x in n):
        return False
    # more uv rows make an index one past the end valid: same field set, handled by fields; one more vertex cannot be made by a pair
    if any(x.startswith(("height:", "width:", "history:")) for x in n) and any(x.startswith(("nb_colors:", "history:")) for x in n):
        return True
    return False


# ---- 3D scenes
def mk3d(**kw):
    from deodr.triangulated_mesh import ColoredTriMesh
    F = np.array([(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)])
    V = np.array([(0, 0, 0), (1, 0, 0.25), (0.25, 1, 0), (0.25, 0.25, 1.0)])
    if kw.pop("tex", False):
        m = ColoredTriMesh(F, V, texture=hashed(18, 2).reshape(2, 3, 3), uv=np.array([(0, 0), (2, 0), (0, 1), (1.5, 1)]), faces_uv=F)
    else:
        m = ColoredTriMesh(F, V, colors=hashed(12, 1).reshape(4, 3))
    sc = dr.Scene3D(sigma=kw.pop("sigma", 1), perspective_correct=kw.pop("pc", False))
    if kw.pop("mesh", True):
        sc.set_mesh(m)
    if kw.pop("light", True):
        sc.set_light(np.array((0.25, -0.5, -0.75)), 0.25)
    if kw.pop("bg", True):
        sc.set_background_color([0.25, 0.5, 0.75])
    return sc


def cam3d(h=5, w=6):
    return dr.PerspectiveCamera(w, h, 60.0, np.array((0.25, 0.25, -4.0)), np.eye(3))


def _do(*steps):
    return steps


SCENE3D = [
    ("no mesh", dict(mesh=False), ["render"]),
    ("no background", dict(bg=False), ["render"]),
    ("both backgrounds by fields", {}, ["both", "render"]),
    ("both backgrounds by setters", {}, ["!set_background_image"]),
    ("backward before render", {}, ["backward"]),
    ("backward without culling", {}, ["=render_nocull", "backward"]),
    ("backward with perspective_correct", dict(pc=True), ["=render", "backward"]),
    ("depth backward with perspective_correct", dict(pc=True), ["=render_depth", "depth_backward"]),
    ("depth backward without culling", {}, ["=render_depth_nocull", "depth_backward"]),
    ("depth backward after colour render", {}, ["=render", "depth_backward"]),
    ("colour backward after depth render", {}, ["=render_depth", "backward"]),
    ("backward after deferred", dict(sigma=0), ["=render", "=deferred", "backward"]),
    ("deferred with antialiasing", {}, ["deferred"]),
    ("wrong adjoint size", {}, ["=render", "backward_h"]),
    ("wrong adjoint channels", {}, ["=render", "backward_c"]),
    ("flat adjoint", {}, ["=render", "backward_flat"]),
    ("wrong background size", dict(bg=False), ["bgsize", "render"]),
    ("wrong background channels", dict(bg=False), ["bgchan", "render"]),
    ("wrong background colour", dict(bg=False), ["bgcol", "render"]),
    ("background image of rank 2", dict(bg=False), ["!bg2"]),
    ("background image of float32", dict(bg=False), ["!bg32"]),
    ("background colour of rank 2", dict(bg=False), ["!bgc2"]),
    ("too few vertex colours", {}, ["fewcol", "render"]),
    ("face index beyond the vertices", {}, ["!badface"]),
    ("negative face index", {}, ["!negface"]),
    ("float faces", {}, ["!floatface"]),
    ("faces of two corners", {}, ["!edgeface"]),
    ("vertices of rank 1", {}, ["!rank1"]),
    ("set_vertices of 2D points", {}, ["!set2d"]),
    ("set_vertices with fewer vertices", {}, ["fewvert", "render"]),
    ("texture uv index out of range", dict(tex=True), ["baduv", "render"]),
    ("camera with non rotation", {}, ["!cam_rot"]),
    ("camera with 4x4 extrinsic", {}, ["!cam_ext"]),
    ("camera with 3x4 intrinsic", {}, ["!cam_int"]),
    ("camera with bad last row", {}, ["!cam_row"]),
    ("camera with four distortion coefficients", {}, ["!cam_dist"]),
]


def scene3d(r, item):
    from deodr.triangulated_mesh import ColoredTriMesh
    name, kw, steps = item
    base_image = {}
    for after in range(2):  # the same object renders properly afterwards
        sc = mk3d(**dict(kw))
        cam = cam3d()
        F, V = (sc.mesh.faces, sc.mesh.vertices) if sc.mesh is not None else (np.array([(0, 1, 2)]), np.eye(3))
        ones = np.ones((5, 6, 3))
        E = cam.extrinsic
        K = cam.intrinsic
        def fewcol():
            sc.mesh.vertices_colors = sc.mesh.vertices_colors[:-1]
        def baduv():
            sc.mesh.faces_uv = sc.mesh.faces_uv + 1
        def both():
            sc.background_image = np.zeros((5, 6, 3))
        acts = dict(
            render=lambda: sc.render(cam), render_nocull=lambda: sc.render(cam, backface_culling=False), render_depth=lambda: sc.render_depth_(cam),
            render_depth_nocull=lambda: sc.render_depth_(cam, backface_culling=False),
            backward=lambda: sc.render_backward(ones.copy()), depth_backward=lambda: sc.render_depth_backward(np.ones((5, 6, 1))), deferred=lambda: sc.render_deferred(cam),
            backward_h=lambda: sc.render_backward(np.ones((4, 6, 3))), backward_c=lambda: sc.render_backward(np.ones((5, 6, 2))), backward_flat=lambda: sc.render_backward(np.ones(90)),
            both=both, bgsize=lambda: sc.set_background_image(np.zeros((6, 5, 3))), bgchan=lambda: sc.set_background_image(np.zeros((5, 6, 4))), bgcol=lambda: sc.set_background_color([0.5, 0.5]),
            fewcol=fewcol, baduv=baduv, fewvert=lambda: sc.mesh.set_vertices(V[:-1]),
            set_background_image=lambda: sc.set_background_image(np.zeros((5, 6, 3))), bg2=lambda: sc.set_background_image(np.zeros((5, 6))),
            bg32=lambda: sc.set_background_image(np.zeros((5, 6, 3), dtype=np.float32)), bgc2=lambda: sc.set_background_color(np.zeros((3, 2))),
            badface=lambda: _built(ColoredTriMesh(np.where(F == 3, 4, F), V, colors=np.ones((4, 3))), sc, cam), negface=lambda: ColoredTriMesh(np.where(F == 3, -1, F), V, colors=np.ones((4, 3))),
            floatface=lambda: ColoredTriMesh(F.astype(float), V, colors=np.ones((4, 3))), edgeface=lambda: ColoredTriMesh(F[:, :2], V, colors=np.ones((4, 3))),
            rank1=lambda: ColoredTriMesh(F, V.flatten(), colors=np.ones((4, 3))), set2d=lambda: sc.mesh.set_vertices(V[:, :2]),
            cam_rot=lambda: dr.Camera(E * 2, K, 5, 6), cam_ext=lambda: dr.Camera(np.vstack([E, [0, 0, 0, 1]]), K, 5, 6), cam_int=lambda: dr.Camera(E, np.column_stack([K, K[:, 0]]), 5, 6),
            cam_row=lambda: dr.Camera(E, np.diag([5.0, 5, 2]), 5, 6), cam_dist=lambda: dr.Camera(E, K, 5, 6, distortion=(0.1, 0, 0, 0)))
        sc.render_depth_ = lambda c, **k: _depth(sc, c, **k)
        raised = None
        for st in steps:
            must_pass = st.startswith("=")
            must_raise = st.startswith("!") or st is steps[-1]
            try:
                acts[st.lstrip("=!")]()
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except BaseException as e:
                raised = e
                if must_pass:
                    raise
                break
        r.n += 1
        r.key(name, type(raised).__name__)
        if raised is None and must_raise:
            r.bad("accepted 3D:" + name, "%s: no exception from %s" % (name, steps))
        # same scene object, repaired
        good = mk3d()
        sc.set_mesh(good.mesh)
        sc.background_image = None
        sc.background_color = good.background_color
        sc.set_light(good.light_directional, good.light_ambient)
        sc.sigma, sc.perspective_correct = good.sigma, False
        a = sc.render(cam)
        b = good.render(cam)
        if not np.array_equal(a, b):
            r.bad("after repair 3D", "%s: the repaired scene renders differently" % name)
        sc.render_backward(ones.copy())
        va = vb(sc.mesh).copy()
        g2 = mk3d()
        g2.render(cam)
        g2.render_backward(ones.copy())
        if not np.array_equal(va, vb(g2.mesh)):
            r.bad("after repair 3D", "%s: the repaired scene has another gradient" % name)


def _depth(sc, c, **k):
    bg = sc.background_color
    sc.background_color = np.zeros(1)
    try:
        return sc.render_depth(c, **k)
    finally:
        sc.background_color = bg


def _built(mesh, sc, cam):
    sc.set_mesh(mesh)
    return sc.render(cam)


def coverage(acc):
    return dict(faults_in_catalogue=len(CAT) + len(SCENE3D), entry_points=len(ENTRIES))
