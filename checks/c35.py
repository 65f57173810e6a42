"""C35: schedules of two threads working on separate scenes, meshes and fitters, under a controlled scheduler."""
import contextlib
import io
import itertools
import os
import tempfile

import numpy as np
import torch

import deodr
import meshes
from deodr import mesh_fitter
from deodr.laplacian_rigid_energy import LaplacianRigidEnergy
from deodr.obj import read_obj, save_obj
from deodr.pytorch import CameraPytorch, ColoredTriMeshPytorch, Scene3DPytorch
from deodr.triangulated_mesh import ColoredTriMesh, TriMesh, loop_subdivision
from dlib import dr, hashed, vb
from runner import R
from s3d import Spec
from sched import Schedule
from scenes import SHAPES, multi

torch.set_num_threads(1)
ID = "C35"
LEVEL = "exploration"
TECHNIQUE = "stateless exploration of thread schedules of the real code under a controlled scheduler"
RULE = ("two threads, each doing one task of {colour, textured, depth and deferred rendering of a 3D scene with backward passes, 2D rendering, residual rendering with both modes and backward, mesh construction with silhouettes and subdivision, rigidity energy, "
        "fitter steps, PyTorch render and backward, reading and writing OBJ}, sharing camera and input arrays only; all schedules with one preemption at any executed line of the package for every pair of tasks and both orders (quick: every third line for tasks of different kinds), "
        "all schedules with two preemptions for the pairs of short tasks (quick: on a grid of 40 x 40 lines); thorough: every line, every pair of lines for the short tasks, a grid of 120 x 120 pairs for the others, and one preemption at every bytecode; "
        "each task's results must equal bit for bit those of the task run alone, and shared arrays stay unchanged")
ASSUME = ["one thread runs at a time (the compiled renderer holds the interpreter lock); preemption points are the line, resp. bytecode, boundaries of the Python modules of the package",
          "each scene, mesh and fitter is used by one thread"]
CASE_LIMIT = 700
ROOT = os.path.dirname(deodr.__file__) + os.sep
W, H = 5, 4


def arr(*x):
    return tuple(np.array(a, dtype=np.float64) for a in x)


class Shared:
    """Everything the two threads have in common."""

    def __init__(self, subdivided=0, variant=0):
        V, F = meshes.closed()["tetra"]
        if subdivided:
            m = ColoredTriMesh(F, V, nb_colors=3).subdivise(subdivided)
            V, F = m.vertices, m.faces
        self.F = np.roll(F, variant, axis=0)
        self.V = V * (1.25 + variant / 256) + 0.125 * hashed(V.size, 3).reshape(V.shape)
        self.colors = 0.25 + hashed(3 * len(V), 5).reshape(-1, 3)
        self.texture = 0.25 + hashed(4 * 3 * 3, 7).reshape(4, 3, 3)
        self.uv = hashed(2 * len(V), 2).reshape(-1, 2) * [2.5, 3.5]
        sp = Spec(size=(W, H), pose=(1, 2, 3, 4))
        self.camera = dr.Camera(sp.E, sp.K, H, W, distortion=(0.05, -0.02, 0.01, 0.02, 0.0))
        self.tcamera = CameraPytorch(sp.E, sp.K, H, W)
        self.light = np.array([0.25, -0.5, -0.75])
        self.bg = np.array([0.125, 0.5, 0.25])
        self.adj = hashed(W * H * 3, 3).reshape(H, W, 3) - 0.25
        self.obs = hashed(W * H * 3, 9).reshape(H, W, 3)
        self.fobs = hashed(W * H, 9).reshape(H, W)
        self.euler, self.trans = np.array([0.25, -0.5, 0.375]), np.array([0.125, -0.25, 0.5])
        for a in (self.colors, self.texture, self.obs, self.fobs, self.euler, self.bg) if variant else ():
            a *= 1 + variant / 256
        self.keep = [(k, a, a.copy()) for k, a in vars(self).items() if isinstance(a, np.ndarray)]

    def changed(self):
        return [k for k, a, c in self.keep if not np.array_equal(a, c)]


def mesh3(sh, v, tex=False):
    """v: which of the two threads; gives different contents."""
    V = sh.V * (1, 0.75)[v]
    if tex:
        return ColoredTriMesh(sh.F, V, faces_uv=sh.F, uv=sh.uv, texture=sh.texture * (1, 0.5)[v])
    return ColoredTriMesh(sh.F, V, colors=sh.colors * (1, 0.5)[v])


def scene3(sh, v, tex=False):
    s = dr.Scene3D(sigma=(1.0, 1.5)[v])
    s.set_mesh(mesh3(sh, v, tex))
    s.set_light(sh.light * (1, -1)[v], (0.25, 0.5)[v])
    s.set_background_color(sh.bg)
    return s


def t_color(sh, v, tex=False):
    s = scene3(sh, v, tex)
    im, z = s.render(sh.camera, return_z_buffer=True)
    s.clear_gradients()
    s.render_backward(sh.adj.copy())
    return arr(im, z, vb(s.mesh), s.light_ambient_b, s.light_directional_b, s.scene_2d.texture_b if tex else s.mesh.vertices_colors_b)


def t_texture(sh, v):
    return t_color(sh, v, True)


def t_depth(sh, v):
    s = scene3(sh, v)
    s.set_background_color(np.array([0.5]))
    im = s.render_depth(sh.camera, depth_scale=(0.5, 0.25)[v])
    s.clear_gradients()
    s.render_depth_backward(sh.adj[:, :, :1].copy())
    return arr(im, vb(s.mesh))


def t_deferred(sh, v):
    s = scene3(sh, v, bool(v))
    s.sigma = 0
    d = s.render_deferred(sh.camera)
    return arr(*[d[k] for k in sorted(d)])


def flat(v, n=2):
    return multi([SHAPES[1], SHAPES[5]][:n], [(2, 2, 2), (1, 3, 5)][:n], 1 + 3 * v, dict(clockwise=bool(v)), textured=2 * v, width=W, height=H, nb_colors=3)


def t_flat(sh, v):
    s = flat(v)
    im, z = s.render(sigma=(1.0, 0.5)[v])
    s.clear_gradients()
    s.render_backward(sh.adj.copy())
    return arr(im, z, s.ij_b, s.colors_b, s.uv_b, s.shade_b, s.texture_b)


def t_residual(sh, v):
    s = flat(v)
    out = s.render_compare_and_backward(sigma=(1.0, 0.5)[v], obs=sh.obs, antialiase_error=bool(v), make_copies=not v)
    return arr(*out, s.ij_b, s.colors_b, s.uv_b, s.shade_b, s.texture_b)


def t_mesh(sh, v):
    V, F = meshes.closed()[("octa", "tetra")[v]]
    m = ColoredTriMesh(F[:, ::1 - 2 * v].copy(), V, clockwise=bool(v), colors=V)
    m.compute_face_normals()
    m.compute_vertex_normals()
    pr = V[:, :2] + 0.25 * V[:, 2:]
    d = loop_subdivision(m, 1)
    g = m.adjacencies
    return arr(m.edge_on_silhouette(pr), m.vertex_normals, m.compute_volume(), d.vertices, d.faces, np.array(g.edges_faces_ones.todense()))


def t_energy(sh, v):
    m = TriMesh(sh.F, sh.V)
    e = LaplacianRigidEnergy(m, sh.V * (1, 2)[v], 3.5)
    x, g, h = e.evaluate(sh.V + 0.25 * hashed(sh.V.size, v).reshape(-1, 3))
    return arr(x, g, np.array(h.todense()))


def t_fitter(sh, v):
    f = mesh_fitter.MeshDepthFitter(sh.V, sh.F, sh.euler, sh.trans, cregu=(20.0, 3.5)[v])
    f.set_max_depth((1.0, 0.75)[v])
    f.set_depth_scale(0.25)
    f.set_image(sh.fobs, focal=(9.0, 12.0)[v])
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        for _ in range(2):
            out += list(f.step())
    return arr(*out, f.vertices, f.transform_quaternion, f.transform_translation)


def t_rgb(sh, v):
    f = mesh_fitter.MeshRGBFitterWithPose(sh.V, sh.F, sh.euler, sh.trans, sh.bg, sh.light, 0.375, cregu=(20.0, 3.5)[v], update_lights=True, update_color=True)
    f.set_background_color(sh.bg)
    f.set_image(sh.obs, focal=(9.0, 12.0)[v])
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        out += list(f.step())
    return arr(*out, f.vertices, f.transform_quaternion, f.transform_translation, f.mesh_color, f.light_directional)


def t_torch(sh, v):
    m = ColoredTriMeshPytorch(sh.F, sh.V, colors=sh.colors)
    leaves = [torch.tensor(sh.V * (1, 0.75)[v], requires_grad=True), torch.tensor(sh.colors * (1, 0.5)[v], requires_grad=True), torch.tensor(sh.light, requires_grad=True), torch.tensor(0.25 + v, dtype=torch.double, requires_grad=True)]
    m.set_vertices(leaves[0])
    m.set_vertices_colors(leaves[1])
    s = Scene3DPytorch()
    s.sigma = (1.0, 1.5)[v]
    s.set_mesh(m)
    s.set_light(leaves[2], leaves[3])
    s.set_background_color(sh.bg)
    im = s.render(sh.tcamera)
    (im * torch.tensor(sh.adj)).sum().backward()
    return arr(im.detach().numpy(), *[x.grad.numpy() for x in leaves])


def t_obj(sh, v):
    with tempfile.TemporaryDirectory(prefix="deodr-thr-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None) as d:
        p = os.path.join(d, "a.obj")
        save_obj(p, sh.V * (1, 3)[v], sh.F[:3 - v])
        f, x = read_obj(p)
    return arr(f, x)


TASKS = dict(color=t_color, texture=t_texture, depth=t_depth, deferred=t_deferred, flat=t_flat, residual=t_residual, mesh=t_mesh, energy=t_energy, fitter=t_fitter, rgb=t_rgb, torch=t_torch, obj=t_obj)
SHORT = ("flat", "residual", "energy", "depth")
PARTS = 8
_alone = {}


def same(a, b):
    return a[0] == b[0] and (a[1] == b[1] if a[0] != "ok" else len(a[1]) == len(b[1]) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(a[1], b[1])))


def tasks_of(sh, names):
    return [lambda k=k, v=v: TASKS[k](sh, v) for v, k in enumerate(names)]


def alone(name, v, opcodes):
    """-> (result, number of events) of the task run by itself."""
    key = name, v, opcodes
    if key not in _alone:
        for _ in range(2):  # the second time, so that imports and other one-time work are over
            sh = Shared()
            s = Schedule([lambda: TASKS[name](sh, v)], [], ROOT, opcodes)
            res = s.run()[0]
        if res[0] != "ok":
            raise RuntimeError("task %s alone: %s" % (name, res[1]))
        _alone[key] = res, s.events[0]
    return _alone[key]


def cases(tier):
    for i, (a, b) in enumerate(itertools.product(TASKS, repeat=2)):
        yield dict(kind="one", pair=[a, b], step=1 if a == b or tier == "thorough" else 3, start=1 + i % 3)
    for a, b in itertools.product(SHORT, repeat=2):
        for p in range(PARTS):
            yield dict(kind="two", pair=[a, b], part=p, grid=40 if tier == "quick" else 100000)
    if tier == "thorough":
        for a, b in itertools.product(TASKS, repeat=2):
            yield dict(kind="opcode", pair=[a, b], step=1, start=1)
            if a not in SHORT or b not in SHORT:
                for p in range(PARTS):
                    yield dict(kind="two", pair=[a, b], part=p, grid=120)


def points(n, limit):
    """All of 1..n-1, or every k-th one when there are more than `limit`."""
    step = max(1, -(-n // limit))
    return range(1, n, step)


def schedules(case):
    a, b = case["pair"]
    op = case["kind"] == "opcode"
    n, m = alone(a, 0, op)[1], alone(b, 1, op)[1]
    if case["kind"] in ("one", "opcode"):
        for i in range(case["start"], n, case["step"]):
            yield [(0, i), (1, m + 10**6)]
        if a != b:
            return  # the other order is another pair
        for j in range(case["start"], m, case["step"]):
            yield [(1, j), (0, n + 10**6)]
    else:
        for i in points(n, case["grid"])[case["part"]::PARTS]:
            for j in points(m, case["grid"]):
                yield [(0, i), (1, j), (0, 10**9)]


def check(case):
    r = R()
    r.n = 0
    op = case["kind"] == "opcode"
    want = [alone(k, v, op) for v, k in enumerate(case["pair"])]
    sh = Shared()
    for seg in schedules(case):
        s = Schedule(tasks_of(sh, case["pair"]), seg, ROOT, op)
        res = s.run()
        r.n += 1
        r.key(tuple(case["pair"]), case["kind"], tuple(seg))
        for v in (0, 1):
            if not same(res[v], want[v][0]):
                r.bad("result", "schedule %s of %s: the task of thread %d gives %s, alone %s" % (seg, case["pair"], v, brief(res[v]), brief(want[v][0])))
                return r
        if sh.changed():
            r.bad("shared", "schedule %s of %s: shared arrays %s modified" % (seg, case["pair"], sh.changed()))
            return r
    r.count("schedules", r.n)
    return r


def brief(x):
    return x[1] if x[0] != "ok" else [np.ravel(a)[:4].tolist() for a in x[1]]
