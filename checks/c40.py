"""C40: the choice of the world frame and unit, of the image axes and of the colour channels changes nothing but the axes of the results."""
import contextlib
import copy
import io
import itertools

import numpy as np
import scipy.spatial.transform
import torch

import c26
import meshes
from c20 import DIST, LIGHTS, MESHES, POSES
from deodr import mesh_fitter
from deodr.differentiable_renderer import PerspectiveCamera, default_camera
from deodr.laplacian_rigid_energy import LaplacianRigidEnergy
from deodr.pytorch import mesh_fitter_pytorch as tfit
from deodr.triangulated_mesh import ColoredTriMesh, TriMesh, loop_subdivision
from dlib import close_scaled, hashed, quat_rot, vb
from runner import R
from s3d import Spec

torch.set_num_threads(1)
ID = "C40"
LEVEL = "exploration"
CASE_LIMIT = 300
# the 24 rotations of the cube
CUBE = [np.diag(s)[list(p)] for p in itertools.permutations(range(3)) for s in itertools.product((1.0, -1.0), repeat=3)]
CUBE = [Q for Q in CUBE if np.linalg.det(Q) > 0]
RULE = ("library meshes x poses x settings, rewritten by every element of {the 24 rotations of the cube and generic rotations of the world frame, with and without a translation; changes of unit by powers of two; quarter turns of the image, by the intrinsic matrix or by the pose, with lens distortion; mirrored image (open meshes with faces reversed); every order of the colour channels and each channel alone} "
        "and compositions of two of them (thorough: of three); colour, depth, deferred and PyTorch images, all gradients, normals, silhouettes, volume, subdivision, rigidity energy, default cameras must be those of the original up to the same change; "
        "and every fitter, with and without active step limits, started in each of the 24 rotated model frames follows the same images, energies and poses, as do the fitters whose camera follows the initial translation from each of 27 shifted starts; distinct = distinct (scene, element)")
ASSUME = ["pixels at exact ties of the reference are left out, with zero adjoint", "the background of the deferred depth channel is left out"]
SETTINGS = [dict(sigma=s, pc=p, ipc=i, bg=b, cull=c) for s, p, i, b, c in ((1.0, False, True, "image", True), (0.0, False, False, "image", True), (2.5, False, False, "color", True), (0.0, True, True, "image", False), (1.5, True, False, "color", True), (0.0, False, True, "color", False))]


class El:
    """Change of a scene: world x -> s Q x + t; image quarter turns, mirror; channels."""

    def __init__(self, name, Q=None, t=0.0, s=1.0, turns=0, roll=False, mirror=False, perm=None):
        self.name, self.Q, self.t, self.s, self.turns, self.roll, self.mirror, self.perm = name, np.eye(3) if Q is None else Q, np.zeros(3) + t, s, turns, roll, mirror, perm

    def image(self, x):
        """Image of the original scene -> image of the changed one."""
        x = np.rot90(x, -self.turns)
        if self.mirror:
            x = x[:, ::-1]
        return np.ascontiguousarray(x)

    def channels(self, x):
        return x if self.perm is None else np.ascontiguousarray(x[..., list(self.perm)])

    def spec(self, sp):
        q = copy.copy(sp)
        q.V = self.s * sp.V.dot(self.Q.T) + self.t
        Rm = sp.E[:, :3].dot(self.Q.T)
        q.E = np.column_stack([Rm, self.s * sp.E[:, 3] - Rm.dot(self.t)])
        if sp.light is not None:
            q.light = self.Q.dot(sp.light)
        w, h = sp.size
        o = 0 if not sp.ipc else 1
        A, S = np.eye(3), np.array(sp.size)
        for _ in range(self.turns):  # a quarter turn clockwise: (x, y) -> (h - y, x)
            A = np.array([[0, -1.0, S[1] - o], [1, 0, 0], [0, 0, 1]]).dot(A)
            S = S[::-1]
        if self.mirror:
            A = np.array([[-1.0, 0, S[0] - o], [0, 1, 0], [0, 0, 1]]).dot(A)
            q.F = sp.F[:, ::-1].copy()
            if sp.textured:
                q.faces_uv = sp.faces_uv[:, ::-1].copy()
        q.size = tuple(int(v) for v in S)
        q.K = A.dot(sp.K)
        if self.roll:  # the turn is done by the pose: K' A2 R with the same A2 in front of R
            A2 = np.eye(3)
            A2[:2, :2] = np.round(A[:2, :2])
            q.E = A2.dot(q.E)
            q.K = A.dot(sp.K).dot(A2.T)
            if sp.dist is not None:
                k1, k2, p1, p2, k3 = sp.dist
                p2, p1 = A2[:2, :2].dot([p2, p1])
                q.dist = (k1, k2, p1, p2, k3)
        q.bgval = self.channels(self.image(sp.bgval) if sp.bg == "image" else sp.bgval)
        if self.perm is not None:
            q.nc = len(self.perm)
            if sp.textured:
                q.texture = self.channels(sp.texture)
            else:
                q.colors = self.channels(sp.colors)
        return q

    def then(self, o):
        e = El(self.name + " then " + o.name, o.Q.dot(self.Q), o.s * o.Q.dot(self.t) + o.t, o.s * self.s, (self.turns + o.turns) % 4, self.roll or o.roll, self.mirror or o.mirror, o.perm or self.perm)
        return e


def elements(sp, cls):
    if cls == "frame":
        for i, Q in enumerate(CUBE):
            yield El("cube rotation %d" % i, Q, (0.0, (1.5, -2.0, 0.25))[i % 2])
        for i, q in enumerate(((1, 2, -1, 3), (0.5, -1, 2, 1), (3, 1, 1, -2))):
            yield El("rotation %s" % (q,), quat_rot(q), np.array([4.0, -3, 2]) * i)
    if cls == "unit":
        for k in (-20, -3, -1, 1, 4, 30):
            yield El("unit 2**%d" % k, s=2.0 ** k)
    if cls == "image":
        for k, roll in itertools.product((1, 2, 3), (False, True)):
            yield El("%d quarter turns by the %s" % (k, "pose" if roll else "intrinsic matrix"), turns=k, roll=roll)
        if sp.mesh in meshes.opened() and sp.light is None:
            yield El("mirror", mirror=True)
            yield El("mirror and turn", mirror=True, turns=1)
    if cls == "channels":
        for k in range(1, sp.nc + 1) if sp.nc > 1 else ():
            for p in itertools.permutations(range(sp.nc), k):
                if k in (1, sp.nc):
                    yield El("channels %s" % (p,), perm=p)
        yield El("repeated channels", perm=tuple(range(sp.nc)) * 3)
    if cls == "both":
        for i, (Q, k) in enumerate(itertools.product(CUBE[1::5] + [quat_rot((1, 2, -1, 3))], (1, 2, 3))):
            yield El("rotation", Q, (0.5, 1.0, -2)).then(El("unit", s=2.0 ** (2 * k - 3))).then(El("turn %d" % k, turns=k, roll=bool(i % 2))).then(El("channels", perm=tuple(range(sp.nc))[::-1]))
    if cls == "three":
        for a, b, c in itertools.product(elements(sp, "frame"), elements(sp, "unit"), elements(sp, "image")):
            yield a.then(b).then(c)


CLASSES = ("frame", "unit", "image", "channels", "both")


def cases(tier):
    th = tier == "thorough"
    for m, p, cw, kind in itertools.product(MESHES, range(len(POSES) - 2 if th else 2), (False, True), ("c3", "t3", "u3", "c1")):
        if not th and (p + cw + len(m) + ord(kind[0]) + ord(kind[1])) % 2:
            continue
        for cls in CLASSES + (("three",) if th else ()):
            yield dict(mesh=m, pose=p, cw=cw, kind=kind, cls=cls, all=th)
    for f in ("rgb", "torch rgb", "torch depth"):
        yield dict(shifts=f, steps=20 if th else 3)
    for f in FITTERS:
        for a in range(0, 24, 6):
            yield dict(fitter=f, first=a, steps=40 if th else 4, limits=False)
            if f != "lbfgs":
                yield dict(fitter=f, first=a, steps=40 if th else 4, limits=True)


def results(sp, adj, dadj, unit, tpart=True):
    """name -> (type of the axes, array)."""
    out = {}
    sc, cam = sp.make_scene(), sp.camera()
    img, z = sc.render(cam, return_z_buffer=True, backface_culling=sp.cull)
    out["image"], out["z-buffer"] = ("ic", img), ("i", z / unit)
    back = sp.cull and not sp.pc
    if back:
        sc.clear_gradients()
        sc.render_backward(adj.copy())
        out["vertices gradient"] = "v", np.array(vb(sc.mesh)) * unit
        out["ambient gradient"] = "s", np.array(sc.light_ambient_b)
        if sp.light is not None:
            out["light gradient"] = "v", np.array(sc.light_directional_b)[None]
        if sp.textured:
            out["texture gradient"], out["uv gradient"] = ("c", np.array(sc.scene_2d.texture_b)), ("s", np.array(sc.scene_2d.uv_b))
        else:
            out["colours gradient"] = "c", np.array(sc.mesh.vertices_colors_b)
    sd = sp.make_scene()
    if sp.bg == "image":
        sd.set_background_image(sp.depthbg.copy())
    else:
        sd.set_background_color(np.array([-0.75]))
    out["depth"] = "i", sd.render_depth(cam, depth_scale=0.375 / unit, backface_culling=sp.cull)
    if back:
        sd.clear_gradients()
        sd.render_depth_backward(dadj.copy())
        out["depth gradient"] = "v", np.array(vb(sd.mesh)) * unit
    s0 = copy.copy(sp)
    s0.sigma = 0.0
    d = s0.make_scene().render_deferred(cam, depth_scale=0.375 / unit, backface_culling=sp.cull)
    for k, x in d.items():
        out["deferred " + k] = {"normal": "iv", "xyz": "ip", "depth": "f", "face_id": "f", "color": "ic"}.get(k, "i"), np.asarray(x)
    if tpart:
        s, tc, leaf = c26.torch_scene(sp)
        ti = s.render(tc, backface_culling=sp.cull)
        out["torch image"] = "ic", ti.detach().numpy()
        if back:
            (ti * torch.tensor(adj)).sum().backward()
            for k, x in leaf.items():
                g = np.zeros(x.shape) if x.grad is None else x.grad.numpy()
                out["torch %s gradient" % k] = {"vertices": "v", "light": "v", "texture": "c", "colors": "c"}.get(k, "s"), g * (unit if k == "vertices" else 1) if k != "light" else g[None]
    return out


def mapped(e, kind, x):
    """What the original result becomes."""
    if kind in ("ic", "i", "f", "iv", "ip"):
        x = e.image(x)
        if kind == "ic":
            x = e.channels(x)
        if kind == "iv":
            x = x.dot(e.Q.T)
        if kind == "ip":
            x = e.s * x.dot(e.Q.T) + e.t * 1.0
    elif kind == "c":
        x = e.channels(x)
    elif kind == "v":
        x = x.dot(e.Q.T)
    return x


def adjoints(sp, e, adj, dadj):
    """Adjoint of the changed scene that gives the gradient of the original."""
    a = e.image(adj)
    if e.perm is not None:
        a = e.channels(a)
    return a, e.image(dadj)


def check(case):
    r = R()
    r.n = 0
    if "shifts" in case:
        shifts(r, case)
        return r
    if "fitter" in case:
        fitters(r, case)
        return r
    j = sum(map(ord, case["mesh"] + case["kind"])) + case["pose"] * 5 + case["cw"]
    for i, st in enumerate(SETTINGS):
        if not case["all"] and (i + j) % 3 != CLASSES.index(case["cls"]) % 3:
            continue
        light, amb = LIGHTS[(i + i // 4 + j) % 4]
        sp = Spec(mesh=case["mesh"], kind=case["kind"], cw=case["cw"], light=light, ambient=amb, pose=POSES[case["pose"]], dist=DIST[(i // 3 + j) % 2], size=((15, 13), (12, 16))[(i // 7 + j) % 2], skew=(0, 0.75)[(i + j) % 2], deform=1, **st)
        ref = sp.compose()[1]
        if sp.margin < 1e-7:
            continue
        _, zr, _, am = ref.render(sp.sigma)
        am |= sp.compose("depth", 0.375)[1].render(sp.sigma)[3]
        # renderings without antialiasing have their own ties
        s0 = copy.copy(sp)
        s0.sigma = 0.0
        am |= s0.compose()[1].render(0.0)[3]
        ok = am == 0
        h, w = am.shape
        sp.depthbg = hashed(h * w, 19).reshape(h, w, 1) - 1.0
        adj = (hashed(h * w * sp.nc, 5).reshape(h, w, sp.nc) - 0.375) * ok[..., None]
        dadj = (hashed(h * w, 6).reshape(h, w, 1) - 0.375) * ok[..., None]
        whole = results(sp, adj, dadj, 1.0)
        for e in elements(sp, case["cls"]):
            q = e.spec(sp)
            q.depthbg = e.image(sp.depthbg)
            a, d = adjoints(sp, e, adj, dadj)
            base = whole
            if e.perm is not None:
                # the gradients of the original for the adjoint restricted to these channels
                a0 = np.zeros_like(adj)
                for k, c in enumerate(e.perm):
                    a0[..., c] += adj[..., c]
                base = results(sp, a0, dadj, 1.0)
            text = "%s %s: %s" % (case, st, e.name)
            r.n += 1
            r.key(case["mesh"], case["pose"], case["cw"], case["kind"], i, e.name)
            compare(r, e, base, results(q, a, d, e.s), ok, zr, text, whole)
            if not r.msgs:
                shapes(r, e, sp, q, text)
            if r.msgs:
                return r
    return r


def compare(r, e, a, b, ok, zr, text, whole):
    repeat = e.perm is not None and len(set(e.perm)) < len(e.perm)
    m = e.image(ok)
    cov = e.image(ok & np.isfinite(zr))
    for k, (kind, x) in a.items():
        if k not in b:
            r.bad("missing", "%s: no %s" % (text, k))
            return
        if repeat and kind == "c":
            x = x / (len(e.perm) // len(set(e.perm)))  # the original was given the sum of the adjoints
        x, y = mapped(e, kind, x), b[k][1]
        if e.mirror and k == "deferred barycentric":
            x = x[..., ::-1]
        if e.mirror and k == "deferred normal":
            x = -x
        if kind[0] in "if" and x.shape == y.shape:
            at = cov if kind in ("f", "ip") else m
            x, y = x[at], y[at]
        good = x.shape == y.shape and (np.isfinite(x) == np.isfinite(y)).all()
        if good:
            x, y = np.where(np.isfinite(x), x, 0), np.where(np.isfinite(y), y, 0)
            good = close_scaled(y, x, 1 + np.abs(x).max(initial=0) if "gradient" not in k else 1e-6 + np.abs(x).max(initial=0) + np.abs(whole[k][1]).max(initial=0), 1e-7)
        if not good:
            r.bad(k, "%s: %s is %s instead of %s" % (text, k, y.ravel()[:9], x.ravel()[:9]))
            return


def shapes(r, e, sp, q, text):
    """Mesh quantities, energies, default cameras."""
    def bad(k, x, y, tol=1e-8):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        if x.shape != y.shape or not close_scaled(y, x, 1e-9 + np.abs(x).max(initial=0), tol):
            r.bad(k, "%s: %s is %s instead of %s" % (text, k, y.ravel()[:9], x.ravel()[:9]))
    a, b = [TriMesh(x.F.copy(), x.V.copy(), clockwise=x.cw) for x in (sp, q)]
    if e.mirror:
        return
    # the origin matters for sums of moments of large translations: relative to the size of the mesh
    bad("face normals", a.face_normals.dot(e.Q.T), b.face_normals)
    bad("vertex normals", a.vertex_normals.dot(e.Q.T), b.vertex_normals)
    nb = hashed(sp.V.size, 25).reshape(-1, 3) - 0.5
    a.compute_vertex_normals_backward(nb)
    b.compute_vertex_normals_backward(nb.dot(e.Q.T))
    bad("normals gradient", vb(a).dot(e.Q.T), vb(b) * e.s)
    if sp.mesh in meshes.closed():
        bad("volume", a.compute_volume(), b.compute_volume() / e.s ** 3)
    if not sp.textured:
        c, d = [loop_subdivision(x.make_mesh(), 1) for x in (sp, q)]
        bad("subdivided vertices", e.s * c.vertices.dot(e.Q.T) + e.t, d.vertices)
        bad("subdivided faces", c.faces, d.faces)
        bad("subdivided colours", e.channels(c.vertices_colors), d.vertices_colors)
    if sp.mesh != "two":
        X = hashed(sp.V.size, 27).reshape(-1, 3)
        x, g, _ = LaplacianRigidEnergy(a, sp.V, 3.0).evaluate(X)
        y, f, _ = LaplacianRigidEnergy(b, q.V, 3.0).evaluate(e.s * X.dot(e.Q.T) + e.t)
        bad("rigidity energy", x, y / e.s ** 2)
        bad("rigidity gradient", g.dot(e.Q.T), f / e.s)
    if not e.turns:
        rot = sp.E[:, :3]
        c, d = default_camera(15, 13, 40.0, sp.V, rot), default_camera(15, 13, 40.0, q.V, rot.dot(e.Q.T))
        bad("default camera", np.column_stack((c.extrinsic[:, :3].dot(e.Q.T), e.s * (c.extrinsic[:, 3]) - c.extrinsic[:, :3].dot(e.Q.T).dot(e.t))), d.extrinsic)
        bad("default intrinsic", c.intrinsic, d.intrinsic)
        u = PerspectiveCamera(15, 13, 40.0, sp.V[0] + 3, rot=rot)
        v = PerspectiveCamera(15, 13, 40.0, e.s * e.Q.dot(sp.V[0] + 3) + e.t, rot=rot.dot(e.Q.T))
        P, Q = u.project_points(sp.V), v.project_points(q.V)
        bad("perspective camera", P[0], Q[0])
        bad("perspective camera depths", P[1], Q[1] / e.s)
        bad("camera center", e.s * e.Q.dot(u.get_center()) + e.t, v.get_center(), 1e-6)


# ----- fitters in rotated model frames
W, H = 9, 8
FITTERS = ("depth", "rgb", "multi", "torch depth", "torch rgb", "lbfgs")


def euler_of(q):
    return scipy.spatial.transform.Rotation.from_quat(q).as_euler("zyx")


def qmul(a, b):
    return (scipy.spatial.transform.Rotation.from_quat(a) * scipy.spatial.transform.Rotation.from_quat(b)).as_quat()


SHIFTS = [np.array(s) for s in itertools.product((-8.0, 0.0, 4.0), repeat=3)]


def trajectory(name, Q, steps, limits, half, shift=0.0):
    """Images, energies and world vertices of a fitter whose model is turned by Q and whose pose is turned back; limits: steps so large that they are clamped; shift: added to the initial translation."""
    mod = tfit if name.startswith("torch") or name == "lbfgs" else mesh_fitter
    V, F = meshes.closed()["tetra"]
    V = V * 1.25 + 0.125 * hashed(V.size, 3).reshape(V.shape)
    V = (V - V.mean(0)).dot(Q.T)
    qi = scipy.spatial.transform.Rotation.from_matrix(Q.T).as_quat()
    e0 = [np.array([0.25, -0.5, 0.375]), np.array([0.5, 0.25, -0.375])]
    quats = [qmul(scipy.spatial.transform.Rotation.from_euler("zyx", e).as_quat(), qi) for e in e0]
    eul = [euler_of(q) for q in quats]
    tr = [np.array([0.125, -0.25, 0.5]) + shift, np.array([-0.125, 0.125, 0.25]) + shift]
    obs, obs2 = hashed(W * H * 3, 9).reshape(H, W, 3), hashed(W * H * 3, 11).reshape(H, W, 3)
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        if "depth" in name or name == "lbfgs":
            f = (tfit.MeshDepthFitterPytorchOptim if name == "lbfgs" else mod.MeshDepthFitter)(V, F, eul[0], tr[0], cregu=20.0)
            f.set_max_depth(3.0)
            f.set_depth_scale(0.25)
            f.set_image(obs[:, :, 0].copy(), focal=12.0)
        elif "rgb" in name:
            f = mod.MeshRGBFitterWithPose(V, F, eul[0], tr[0], np.array([0.5, 0.25, 0.75]), np.array([0.25, -0.5, -0.75]), 0.375, cregu=20.0)
            f.set_background_color(np.array([0.125, 0.5, 0.25]))
            f.set_image(obs, focal=12.0)
        else:
            f = mod.MeshRGBFitterWithPoseMultiFrame(V, F, np.array(eul), np.array(tr), np.array([0.5, 0.25, 0.75]), np.array([0.25, -0.5, -0.75]), 0.375, cregu=20.0)
            f.set_background_color(np.array([0.125, 0.5, 0.25]))
            f.set_images([obs, obs2], focal=12.0)
        if limits:
            f.step_factor_vertices *= 16
            f.step_max_vertices = f.step_factor_translation = 2.0**-8
            f.step_max_translation = 2.0**-9
            if half:  # other turns mix the coordinates of the quaternion, which are clamped one by one
                f.step_factor_quaternion, f.step_max_quaternion = 2.0**-8, 2.0**-10
        for _ in range(steps):
            for x in f.step():
                for y in x if isinstance(x, list) else [x]:
                    out.append(np.array(y.detach().numpy() if isinstance(y, torch.Tensor) else y, dtype=float))
            if name == "lbfgs":
                continue
            out.append(np.array(f.transform_translation, dtype=float) - shift)
            out.append(np.array(f.vertices, dtype=float).dot(Q))
            q = np.atleast_2d(np.array(f.transform_quaternion, dtype=float))
            for p in q:
                out.append(scipy.spatial.transform.Rotation.from_quat(p).as_matrix().dot(Q))
    return out


_base = {}


def shifts(r, case):
    """The camera of the colour fitters follows the initial translation."""
    name = case["shifts"]
    base = trajectory(name, np.eye(3), case["steps"], False, True)
    for d in SHIFTS:
        got = trajectory(name, np.eye(3), case["steps"], False, True, d)
        r.n += 1
        r.key(name, "shift", tuple(d))
        for j, (x, y) in enumerate(zip(base, got)):
            if x.shape != y.shape or not close_scaled(y, x, 1 + np.abs(x).max(initial=0), 1e-7):
                r.bad("shifted start", "%s fitter, initial translation shifted by %s: output %d is %s instead of %s" % (name, d.tolist(), j, y.ravel()[:6], x.ravel()[:6]))
                break


def fitters(r, case):
    name = case["fitter"]
    for i in range(case["first"], case["first"] + 6):
        half = bool(np.count_nonzero(np.diag(CUBE[i])) == 3)
        k = (name, case["limits"], half)
        if k not in _base:
            _base[k] = trajectory(name, np.eye(3), case["steps"], case["limits"], half)
        got = trajectory(name, CUBE[i], case["steps"], case["limits"], half)
        r.n += 1
        r.key(name, i, case["limits"])
        # the length of the first step of torch's LBFGS follows the sum of the absolute values of the gradient, which turns of the quaternion change
        n = 3 if name == "lbfgs" and not half else len(got)
        for j, (x, y) in enumerate(zip(_base[k][:n], got)):
            if x.shape != y.shape or not close_scaled(y, x, 1 + np.abs(x).max(initial=0), 1e-5):
                r.bad("trajectory", "%s fitter, model turned by %s: output %d is %s instead of %s" % (name, CUBE[i].tolist(), j, y.ravel()[:6], x.ravel()[:6]))
                break
