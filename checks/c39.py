"""C39: equal arguments give equal results whatever their memory layout, ownership, byte order or number type, and are left unchanged."""
import contextlib
import io
import itertools
import os
import tempfile
import warnings

import numpy as np
import torch

import meshes
from deodr import mesh_fitter
from deodr.differentiable_renderer import Camera, PerspectiveCamera, Scene3D, default_camera
from deodr.laplacian_rigid_energy import LaplacianRigidEnergy
from deodr.meshlab_io import export_meshlab
from deodr.obj import read_obj, save_obj
from deodr.pytorch import CameraPytorch, ColoredTriMeshPytorch, LaplacianRigidEnergyPytorch, Scene3DPytorch
from deodr.pytorch import mesh_fitter_pytorch as tfit
from deodr.tools import check_jacobian_finite_differences, jacobian_finite_differences, normalize, normalize_backward, qrot, qrot_backward
from deodr.triangulated_mesh import ColoredTriMesh, TriMesh, loop_subdivision
from dlib import close_scaled, hashed, vb
from runner import R
from s3d import Spec

torch.set_num_threads(1)
ID = "C39"
LEVEL = "exploration"
CASE_LIMIT = 200
RULE = ("tasks {rendering and gradients of 3D scenes with colours and textures, setters, depth and deferred rendering, residual rendering, cameras, mesh quantities and subdivision, rigidity energy, vector tools, OBJ and trimesh conversion, NumPy and PyTorch fitters, PyTorch scenes} x each argument array, and all arguments together "
        "(thorough: all pairs) x every way to store its values {columns first, strided, reversed, gaps, rotated axes, unaligned, read-only, byte-swapped, single precision, integer types where the values are integers}, on real and on integer-valued data; the results must equal those of contiguous double precision arrays "
        "(or the call be refused with an exception: only for byte-swapped, single precision and integer arrays, and for arrays handed to PyTorch or, as observation of the residual, to the compiled renderer), and no argument may change; distinct = distinct (task, arguments, storage)")
ASSUME = ["single precision arguments: results equal to 1e-4, relative to the largest element"]
W, H = 7, 6


GEOMETRY = ("V", "E", "K", "rot", "center", "P", "light")


def data(ints):
    """Arguments by name; ints: all values are integers (so that integer types hold the same values), or those of the geometry, or the others."""
    if ints == "numbers":
        a = data(False)
        a.update((k, max(x, 1.0)) for k, x in a.items() if isinstance(x, float))
        return a
    if ints in ("geometry", "others"):
        a, b = data(True), data(False)
        return {k: a[k] if (k in GEOMETRY) == (ints == "geometry") else b[k] for k in a}
    a = {}
    V, F = meshes.closed()["tetra"]
    a["V"], a["F"] = V * 40.0 + 60 if ints else V * 1.25 + 0.125 * hashed(V.size, 3).reshape(V.shape), np.array(F)
    n = len(V)

    def v(k, *shape, lo=0.25, hi=1.25, top=3):
        x = hashed(int(np.prod(shape)), k).reshape(shape)
        return np.floor(x * (top + 0.999)) if ints else lo + (hi - lo) * x
    a["colors"] = v(5, n, 3, top=120)
    a["uv"] = 1 + v(2, n, 2, hi=2.5, top=2)
    a["FT"] = (a["F"] + 1) % n
    a["texture"] = v(7, 4, 5, 3, top=120)
    sp = Spec(size=(W, H), pose=(1, 2, 3, 4))
    c = a["V"].mean(0)
    rot = np.array([[0.0, 1, 0], [0, 0, 1], [1, 0, 0]]) if ints else sp.E[:, :3]
    a["rot"] = rot
    rad = np.abs(a["V"] - c).max()
    a["E"] = np.column_stack([rot, np.round(-rot.dot(c) + [0, 0, 3 * rad]) if ints else -rot.dot(c) + [0.0625, -0.03125, 4 * rad]])
    a["center"] = np.round(c - [4 * rad, 0, 0]) if ints else c - rot.T.dot([0, 0, 4 * rad])
    a["K"] = np.array([[8.0, 0, 3], [0, 9, 3], [0, 0, 1]]) if ints else np.array([[9.0, 0.25, W / 2 + 0.13], [0, 9.5, H / 2 - 0.21], [0, 0, 1]])
    a["dist"] = np.zeros(5) if ints else np.array([0.05, -0.02, 0.01, 0.02, 0.015])
    a["light"] = np.array([1.0, -2, -3]) if ints else np.array([0.25, -0.5, -0.75])
    a["bg"] = np.array([0.0, 2, 1]) if ints else np.array([0.125, 0.5, 0.25])
    a["bgi"], a["adj"], a["obs"], a["obs2"] = (v(k, H, W, 3) for k in (13, 3, 9, 19))
    a["fobs"], a["bgd"], a["adjd"], a["adjz"] = v(9, H, W), v(15, H, W, 1), v(17, H, W, 1), v(21, H, W)
    a["euler"] = np.array([0.0, 1, 0]) if ints else np.array([0.25, -0.5, 0.375])
    a["trans"] = np.array([0.0, 1, -1]) if ints else np.array([0.125, -0.25, 0.5])
    a["eulers"], a["transs"] = (np.stack([a[k], a[k] * (1 if ints else 0.75)]) for k in ("euler", "trans"))
    a["tex01"] = v(33, 4, 5, 3, lo=0, hi=1, top=1)
    a["q"] = np.array([1.0, 0, 2, 2]) if ints else np.array([0.5, -0.25, 0.75, 0.375])
    a["color0"] = np.array([1.0, 2, 1]) if ints else np.array([0.5, 0.25, 0.75])
    a["N1"] = v(35, 2, 3, top=9) + 1
    a["P"] = v(23, n, 2, hi=6, top=120)
    a["PB"], a["ZB"], a["NB"], a["VB"] = v(25, n, 2), v(27, n), v(29, n, 3, top=120), v(31, n, 3, top=120)
    # numbers
    for k, x in (("sigma", 1.0), ("amb", 0.25), ("ambfit", 0.375), ("dscale", 0.125), ("fscale", 0.25), ("maxd", 3.0), ("focal", 9.0), ("cregu", 20.0)):
        a[k] = x
    return a


def arr(*x):
    return [np.array(v.detach().numpy() if isinstance(v, torch.Tensor) else v, dtype=np.float64) for v in x]


def mesh(a, tex=False, cls=ColoredTriMesh):
    if tex:
        return cls(a.F, a.V, faces_uv=a.FT, uv=a.uv, texture=a.texture)
    return cls(a.F, a.V, colors=a.colors)


def scene(a, tex, image=False, sigma=None):
    s = Scene3D(sigma=a.sigma if sigma is None else sigma)
    s.set_mesh(mesh(a, tex))
    s.set_light(a.light, a.amb)
    s.set_background_image(a.bgi) if image else s.set_background_color(a.bg)
    return s


def cam(a, cls=Camera):
    return cls(a.E, a.K, H, W, distortion=a.dist)


def t_render(a, tex=False):
    s = scene(a, tex, tex)
    im, z = s.render(cam(a), return_z_buffer=True)
    s.clear_gradients()
    s.render_backward(a.adj)
    return arr(im, z, vb(s.mesh), s.light_ambient_b, s.light_directional_b, s.scene_2d.texture_b if tex else s.mesh.vertices_colors_b)


def t_textured(a):
    return t_render(a, True)


def t_setters(a):
    s = Scene3D(sigma=1.0)
    m = mesh(a)
    s.set_mesh(m)
    m.set_vertices(a.V)
    m.set_vertices_colors(a.colors)
    s.set_light(a.light, a.amb)
    s.set_background_image(a.bgi)
    return arr(s.render(cam(a)))


def t_depth(a):
    s = Scene3D(sigma=1.0)
    s.set_mesh(mesh(a))
    s.set_background_image(a.bgd)
    im = s.render_depth(cam(a), depth_scale=a.dscale)
    s.clear_gradients()
    s.render_depth_backward(a.adjd)
    return arr(im, vb(s.mesh))


def t_deferred(a):
    s = scene(a, True, sigma=0)
    d = s.render_deferred(cam(a))
    s = scene(a, False, sigma=0)
    e = s.render_deferred(cam(a))
    return arr(*[x[k] for x in (d, e) for k in sorted(x)])


def t_compare(a):
    s = scene(a, False)
    s.render(cam(a))
    p = s.scene_2d
    out = p.render_compare_and_backward(sigma=1.0, obs=a.obs, mask=a.fobs)
    g = [p.ij_b, p.colors_b]
    p.clear_gradients()
    im, z, err = p.render_error(a.obs, sigma=1.0)
    p.render_error_backward(a.adjz)
    return arr(*out, *g, im, z, err, p.ij_b, p.colors_b)


def t_camera(a):
    c = cam(a)
    st = {}
    p, d = c.project_points(a.V, store_backward=st)
    vb_ = c.project_points_backward(a.PB, st, depths_b=a.ZB)
    e = Camera(a.E, a.K, H, W)
    st = {}
    q, f = e.project_points(a.V, store_backward=st)
    wb = e.project_points_backward(a.PB, st, depths_b=a.ZB)
    g = PerspectiveCamera(W, H, 40.0, a.center, rot=a.rot, distortion=a.dist)
    k = default_camera(W, H, 40.0, a.V, a.rot, distortion=a.dist)
    return arr(p, d, vb_, q, f, wb, c.get_center(), c.camera_to_world_mtx_4x4(), g.extrinsic, g.intrinsic, g.get_center(), g.project_points(a.V)[0], k.extrinsic, k.intrinsic, k.project_points(a.V)[0])


def t_mesh(a):
    m = TriMesh(a.F, a.V)
    m.compute_face_normals()
    m.compute_vertex_normals()
    n = np.array(m.vertex_normals)
    m.compute_vertex_normals_backward(a.NB)
    g = m.adjacencies
    c = loop_subdivision(mesh(a), 2)
    return arr(m.face_normals, n, vb(m), m.compute_volume(), m.edge_on_silhouette(a.P), g.edges, np.array(g.laplacian.todense()), c.vertices, c.faces, c.vertices_colors)


def t_energy(a):
    e = LaplacianRigidEnergy(TriMesh(a.F, a.V), a.V, 3.5)
    x, g, h = e.evaluate(a.VB)
    t = LaplacianRigidEnergyPytorch(TriMesh(a.F, a.V), a.V, 3.5)
    y, k = t.evaluate(torch.tensor(np.array(a.VB, dtype=np.float64)))[:2]
    return arr(x, g, np.array(h.todense()), y, k)


def t_tools(a):
    n = normalize(a.V, axis=1)
    qv = qrot(a.q, a.V)
    qb, xb = qrot_backward(a.q, a.V, a.VB)
    j = jacobian_finite_differences(lambda x: normalize(x.reshape(-1, 3), axis=1), a.N1)
    check_jacobian_finite_differences(np.eye(3), lambda x: x * 1.0, a.light)
    return arr(n, normalize_backward(a.V, a.VB, axis=1), normalize(a.q), qv, qb, xb, np.round(j, 7))


def t_files(a):
    with tempfile.TemporaryDirectory(prefix="deodr-lay-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None) as d:
        p = os.path.join(d, "a.obj")
        save_obj(p, a.V, a.F)
        f, x = read_obj(p)
    return arr(f, x)


def t_trimesh(a):
    m = ColoredTriMesh(a.F, a.V, faces_uv=a.FT, uv=a.uv, texture=a.tex01).to_trimesh()
    b = ColoredTriMesh.from_trimesh(m)
    return arr(b.vertices, b.faces, b.faces_uv, b.uv, b.texture)


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def steps(f, n, *more):
    out = []
    for _ in range(n):
        out += [x for y in quiet(f.step) for x in (y if isinstance(y, list) else [y])]
    return arr(*out, *more)


def t_fit_depth(a, mod=mesh_fitter):
    f = quiet(lambda: mod.MeshDepthFitter(a.V, a.F, a.euler, a.trans, cregu=a.cregu))
    f.set_max_depth(a.maxd)
    f.set_depth_scale(a.fscale)
    f.set_image(a.fobs, focal=a.focal, distortion=a.dist) if mod is mesh_fitter else f.set_image(a.fobs, focal=a.focal)
    r = steps(f, 3)
    return r + arr(f.vertices, f.transform_quaternion, f.transform_translation)


def t_fit_rgb(a, mod=mesh_fitter):
    f = quiet(lambda: mod.MeshRGBFitterWithPose(a.V, a.F, a.euler, a.trans, a.color0, a.light, a.ambfit, cregu=a.cregu))
    f.set_background_color(a.bg)
    f.set_image(a.obs, focal=a.focal)
    r = steps(f, 3)
    return r + arr(f.vertices, f.transform_quaternion, f.transform_translation, f.mesh_color, f.light_directional, f.light_ambient)


def t_fit_multi(a):
    f = quiet(lambda: mesh_fitter.MeshRGBFitterWithPoseMultiFrame(a.V, a.F, a.eulers, a.transs, a.color0, a.light, a.ambfit, cregu=a.cregu))
    f.set_background_color(a.bg)
    f.set_images([a.obs, a.obs2], focal=a.focal)
    r = steps(f, 2)
    return r + arr(f.vertices, f.transform_quaternion, f.transform_translation, f.mesh_color, f.light_directional, f.light_ambient)


def t_tfit_depth(a):
    return t_fit_depth(a, tfit)


def t_tfit_rgb(a):
    return t_fit_rgb(a, tfit)


def t_lbfgs(a):
    f = quiet(lambda: tfit.MeshDepthFitterPytorchOptim(a.V, a.F, a.euler, a.trans, cregu=a.cregu))
    f.set_max_depth(a.maxd)
    f.set_depth_scale(a.fscale)
    f.set_image(a.fobs, focal=a.focal)
    return steps(f, 2)


def t_torch(a, tex=False):
    """Tensors keep the layout of the arrays where that is possible."""
    def leaf(x):
        x = torch.as_tensor(x)
        return (x if x.is_floating_point() else x.to(torch.double)).requires_grad_()
    L = dict(V=leaf(a.V), light=leaf(a.light), amb=torch.tensor(0.25, dtype=torch.double, requires_grad=True))
    if tex:
        L["texture"] = leaf(a.texture)
        m = ColoredTriMeshPytorch(a.F, np.array(a.V, dtype=np.float64), faces_uv=a.FT, uv=a.uv, texture=L["texture"])
    else:
        L["colors"] = leaf(a.colors)
        m = ColoredTriMeshPytorch(a.F, np.array(a.V, dtype=np.float64), colors=np.zeros((len(a.V), 3)))
        m.set_vertices_colors(L["colors"])
    m.set_vertices(L["V"])
    s = Scene3DPytorch()
    s.sigma = 1.0
    s.set_mesh(m)
    s.set_light(L["light"], L["amb"])
    s.set_background_image(a.bgi) if tex else s.set_background_color(a.bg)
    im = s.render(cam(a, CameraPytorch))
    (im * torch.as_tensor(a.adj)).sum().backward()
    return arr(im, s.z_buffer, *[x.grad for x in L.values()])


def t_ttorch(a):
    return t_torch(a, True)


TASKS = dict(render=t_render, textured=t_textured, setters=t_setters, depth=t_depth, deferred=t_deferred, compare=t_compare, camera=t_camera, mesh=t_mesh, energy=t_energy, tools=t_tools, files=t_files, trimesh=t_trimesh,
             fit_depth=t_fit_depth, fit_rgb=t_fit_rgb, fit_multi=t_fit_multi, torch_fit_depth=t_tfit_depth, torch_fit_rgb=t_tfit_rgb, lbfgs=t_lbfgs, torch=t_torch, torch_textured=t_ttorch)


def strided(x):
    b = np.full([3 * n + 1 for n in x.shape], 77, dtype=x.dtype)
    v = b[tuple(slice(1, None, 3) for _ in x.shape)]
    v[...] = x
    return v


def reverse(x):
    s = tuple(slice(None, None, -1) for _ in x.shape)
    return np.ascontiguousarray(x[s])[s]


def one_axis(x):
    """Only the last axis has gaps."""
    b = np.full(x.shape[:-1] + (2 * x.shape[-1],), 77, dtype=x.dtype)
    b[..., ::2] = x
    return b[..., ::2]


def unaligned(x):
    b = bytearray(x.nbytes + 1)
    v = np.frombuffer(b, dtype=x.dtype, offset=1, count=x.size).reshape(x.shape)
    v[...] = x
    return v


def readonly(x):
    x = x.copy()
    x.setflags(write=False)
    return x


def rows(x):
    """Axes stored in a rotated order."""
    return np.moveaxis(np.ascontiguousarray(np.moveaxis(x, 0, -1)), -1, 0)


LAYOUTS = dict(fortran=np.asfortranarray, strided=strided, reversed=reverse, gaps=one_axis, rotated=rows, unaligned=unaligned, readonly=readonly, swapped=lambda x: x.astype(x.dtype.newbyteorder()))
NUMBERS = dict(long=np.int64, int=np.int32, short=np.int16, byte=np.int8, ubyte=np.uint8, ulong=np.uint64)
LISTS = dict(list=lambda x: x.tolist(), tuple=lambda x: tuple(x.tolist()))


class Args:
    def __init__(self, d):
        self._d, self._used = d, set()

    def __getattr__(self, k):
        if k[0] == "_":
            raise AttributeError(k)
        self._used.add(k)
        return self._d[k]


def variants(x, ints):
    """-> (name, array, tolerance): the same values stored in another way."""
    for k, f in LAYOUTS.items():
        yield k, f(x), 1e-9
    if x.dtype.kind != "f":
        for t in (np.int32, np.uint32, np.uint64, np.int16, np.uint16, np.int8, np.uint8):
            yield np.dtype(t).name, x.astype(t), 1e-9
        return
    yield "single", x.astype(np.float32), 1e-4
    for k, t in NUMBERS.items() if ints else ():
        y = x.astype(t)
        if np.array_equal(y, x):
            yield k, y, 1e-9


_base = {}


def base(task, ints):
    if (task, ints) not in _base:
        a = Args(data(ints))
        _base[task, ints] = TASKS[task](a), sorted(a._used)
    return _base[task, ints]


def named(x, ints, kind):
    return next(((y, t) for k, y, t in variants(x, ints) if k == kind), (None, 0))


KINDS = tuple(LAYOUTS) + ("single",) + tuple(NUMBERS) + ("int32", "uint32", "uint64", "int16", "uint16", "int8", "uint8")


def cases(tier):
    for t in TASKS:
        yield dict(task=t, ints="numbers", mode="numbers")
        for ints in (False, True, "geometry", "others"):
            yield dict(task=t, ints=ints, mode="one")
            yield dict(task=t, ints=ints, mode="all")
            if tier == "thorough":
                for k in KINDS:
                    if ints or k not in NUMBERS:
                        yield dict(task=t, ints=ints, mode="pairs", first=k)


# layouts that are accepted, except for the arguments handed to PyTorch or to the compiled renderer as they are
SURE = ("fortran", "strided", "gaps", "rotated", "readonly", "reversed")
LOUD = {("compare", "obs")}
STEPS = {("tools", "N1", "single")}  # differences of 1e-6 are rounding errors in single precision


def run(r, case, change, want):
    """change: name of the argument -> (kind, array, tolerance)."""
    d = data(case["ints"])
    tol = 1e-9
    keep = {}
    for k, (kind, y, t) in change.items():
        d[k] = y
        tol = max(tol, t)
        keep[k] = y.copy()
    whole = {k: x.copy() for k, x in d.items() if k not in keep and isinstance(x, np.ndarray)}
    text = "%s(%s), %s stored as %s" % (case["task"], {True: "integers", False: "reals"}.get(case["ints"], "integer " + str(case["ints"])), ", ".join(change), ", ".join(sorted({x[0] for x in change.values()})))
    r.n += 1
    r.key(case["task"], case["ints"], tuple((k, x[0]) for k, x in change.items()))
    got = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = TASKS[case["task"]](Args(d))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        r.count("refused", 1)
        if all(x[0] in SURE for x in change.values()) and "torch" not in case["task"] and case["task"] != "lbfgs" and not any((case["task"], k) in LOUD for k in change):
            r.bad("refused", "%s: refused (%s: %s)" % (text, type(e).__name__, str(e)[:200]))
    for k, x in {**keep, **whole}.items():
        if d[k].dtype != x.dtype or not np.array_equal(d[k], x):
            r.bad("changed", "%s: the argument %s was modified" % (text, k))
    for i, w in enumerate(want if got is not None else ()):
        g = got[i]
        if g.shape != w.shape or not (np.isfinite(g) == np.isfinite(w)).all():
            r.bad("result", "%s: result %d is %s instead of %s" % (text, i, g.ravel()[:6], w.ravel()[:6]))
        else:
            g, w = np.where(np.isfinite(g), g, 0), np.where(np.isfinite(w), w, 0)
            if not close_scaled(g, w, 1 + np.abs(w).max(initial=0), tol):
                j = np.abs(g - w).argmax()
                r.bad("result", "%s: result %d is %s instead of %s" % (text, i, g.ravel()[j], w.ravel()[j]))


SCALARS = dict(int=int, long=np.int64, byte=np.int8, ubyte=np.uint8, ushort=np.uint16, ulong=np.uint64, half=np.float16, single=np.float32, double=np.float64, array=lambda x: np.array(x), intarray=lambda x: np.array(int(x)))


def scalars(r, case):
    """Numbers given as integers, NumPy scalars and arrays without dimension."""
    want, used = base(case["task"], "numbers")
    used = [k for k in used if isinstance(data("numbers")[k], float)]
    for kind, names in itertools.product(SCALARS, [[k] for k in used] + ([used] if len(used) > 1 else [])):
        d = data("numbers")
        for k in names:
            d[k] = SCALARS[kind](d[k])
        text = "%s, %s given as %s" % (case["task"], ", ".join(names), kind)
        r.n += 1
        r.key(text)
        try:
            got = TASKS[case["task"]](Args(d))
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            r.count("refused", 1)
            if kind in ("int", "long", "double"):
                r.bad("refused number", "%s: refused (%s: %s)" % (text, type(e).__name__, str(e)[:200]))
            continue
        for i, (g, w) in enumerate(zip(got, want)):
            g, w = np.nan_to_num(g, posinf=1e9), np.nan_to_num(w, posinf=1e9)
            if g.shape != w.shape or not close_scaled(g, w, 1 + np.abs(w).max(initial=0), 1e-9):
                r.bad("number", "%s: result %d is %s instead of %s" % (text, i, g.ravel()[:6], w.ravel()[:6]))
                break


def check(case):
    r = R()
    r.n = 0
    if case["mode"] == "numbers":
        scalars(r, case)
        return r
    ints = case["ints"]
    want, used = base(case["task"], ints)
    d = data(ints)
    used = [k for k in used if isinstance(d[k], np.ndarray)]
    if case["mode"] == "one":
        for k in used:
            for kind, y, t in variants(d[k], ints):
                if (case["task"], k, kind) not in STEPS:
                    run(r, case, {k: (kind, y, t)}, want)
    elif case["mode"] == "all":
        for kind in KINDS:
            for loud in (False, True):
                ch = {}
                for k in used:
                    y, t = named(d[k], ints, kind)
                    if y is not None and (case["task"], k, kind) not in STEPS and (loud or (case["task"], k) not in LOUD):
                        ch[k] = (kind, y, t)
                if ch:
                    run(r, case, ch, want)
    else:
        for k, m in itertools.permutations(used, 2):
            y, t = named(d[k], ints, case["first"])
            if y is not None and (case["task"], k, case["first"]) not in STEPS:
                for kind, z, u in variants(d[m], ints):
                    if (case["task"], m, kind) in STEPS:
                        continue
                    run(r, case, {k: (case["first"], y, t), m: (kind, z, u)}, want)
    return r
