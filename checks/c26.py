"""C26: PyTorch rendering and autograd against the NumPy renderer: a grid of scenes, and all interleavings of renders, changes and backward passes."""
import itertools
import warnings

import numpy as np
import torch

from c20 import DIST, LIGHTS, MESHES, POSES, UNITS
from dlib import close, close_scaled, dr, hashed, vb
from deodr.pytorch import CameraPytorch, ColoredTriMeshPytorch, Scene3DPytorch
from deodr.pytorch.differentiable_renderer_pytorch import TorchDifferentiableRender2D
from runner import R
from s3d import Spec

warnings.simplefilter("ignore")
torch.set_num_threads(1)
ID = "C26"
LEVEL = "model_checking"
RULE = ("(1) library meshes x poses x orientation x {1, 3, 4 channels, textures, depth} x {sigma, pixel centres, background, culling, perspective} x lights x distortion: image, z-buffer and gradients of all leaf tensors for dense, expanded, permuted and sliced adjoints, and adjoint tensors given to backward, against the NumPy scene; "
        "(2) all words up to a length (quick 5, thorough 7) over {render from two cameras, depth render, second scene, 2D render, new vertices, new sigma, backward of any live image with retained graph, a loss over all images, modification in place of the last returned image and of the z-buffers}; the model accumulates NumPy gradients of the content at the time of each render; "
        "leaf gradients, images and given tensors compared after every operation")
ASSUME = ["adjoint gradients compared where the NumPy backward pass is defined (no perspective correction)", "float64 CPU tensors"]
CASE_LIMIT = 600


def T(a, grad=True):
    return torch.tensor(np.array(a, dtype=np.float64), requires_grad=grad)


def cases(tier):
    poses = range(4 if tier == "thorough" else 2)
    for m, p, cw, kind in itertools.product(MESHES, poses, (False, True), ("c3", "t3", "c1", "depth", "c4", "v3")):
        yield dict(part="scene", mesh=m, pose=p, cw=cw, kind=kind, step=1 if tier == "thorough" else 2)
    for a, b in itertools.product(range(len(OPS)), repeat=2):
        yield dict(part="history", first=[a, b], depth=7 if tier == "thorough" else 5)


def torch_scene(sp, plain=None):
    """-> scene, camera, dict of leaf tensors."""
    leaf = {}
    if sp.textured:
        leaf["texture"] = T(sp.texture)
        m = ColoredTriMeshPytorch(sp.F.copy(), sp.V.copy(), clockwise=sp.cw, faces_uv=sp.faces_uv.copy(), uv=sp.uv.copy(), texture=leaf["texture"])
    else:
        m = ColoredTriMeshPytorch(sp.F.copy(), sp.V.copy(), clockwise=sp.cw, colors=np.zeros_like(sp.colors))
        leaf["colors"] = T(sp.colors)
        m.set_vertices_colors(leaf["colors"])
    leaf["vertices"] = T(sp.V)
    m.set_vertices(leaf["vertices"])
    s = Scene3DPytorch()
    s.set_mesh(m)
    s.sigma, s.integer_pixel_centers, s.perspective_correct = sp.sigma, sp.ipc, sp.pc
    leaf["ambient"] = T(sp.ambient)
    if sp.light is not None:
        leaf["light"] = T(sp.light)
    if plain and sp.light is not None:
        # a light given as it is to the NumPy scene
        del leaf["light"], leaf["ambient"]
        s.set_light(plain(sp.light), sp.ambient)
    else:
        s.set_light(leaf.get("light"), leaf["ambient"])
    (s.set_background_image if sp.bg == "image" else s.set_background_color)(sp.bgval.copy())
    cam = CameraPytorch(sp.E.copy(), sp.K.copy(), sp.size[1], sp.size[0], distortion=None if sp.dist is None else tuple(sp.dist))
    return s, cam, leaf


def numpy_grads(sp, depth, adj, scale=0.5):
    """Image and gradients of a NumPy scene built from scratch."""
    sc = sp.make_scene()
    cam = sp.camera()
    if depth:
        img = sc.render_depth(cam, depth_scale=scale, backface_culling=sp.cull)
        z = None
    else:
        img, z = sc.render(cam, return_z_buffer=True, backface_culling=sp.cull)
    if adj is None:
        return img, z, None
    sc.clear_gradients()
    if depth:
        sc.render_depth_backward(adj.copy())
        return img, z, dict(vertices=vb(sc.mesh))
    sc.render_backward(adj.copy())
    g = dict(vertices=vb(sc.mesh), ambient=np.array(sc.light_ambient_b))
    if sp.light is not None:
        g["light"] = sc.light_directional_b
    if sp.textured:
        g["texture"] = sc.scene_2d.texture_b
    else:
        g["colors"] = sc.mesh.vertices_colors_b
    return img, z, g


def adjoints(shape):
    """(name, loss of an image, adjoint array)."""
    h, w, c = shape
    a = hashed(h * w * c, 3).reshape(shape) - 0.375
    yield "dense", lambda x: (x * torch.tensor(a)).sum(), a
    yield "expanded", lambda x: x.sum(), np.ones(shape)
    p = hashed(h * w * c, 7).reshape(c, w, h) - 0.5
    yield "permuted", lambda x: (x.permute(2, 1, 0) * torch.tensor(p)).sum(), p.transpose(2, 1, 0)
    b = np.zeros(shape)
    b[::2, 1:, -1] = a[::2, 1:, -1]
    yield "slice", lambda x: (x[::2, 1:, -1] * torch.tensor(a[::2, 1:, -1].copy())).sum(), b
    yield "twice", lambda x: (x * torch.tensor(a)).sum() + 2 * x[0].sum(), a + 2 * (np.arange(h) == 0)[:, None, None]


def same_grads(r, leaf, g, text, sig):
    for k, x in leaf.items():
        want = g.get(k)
        got = np.zeros(x.shape) if x.grad is None else x.grad.numpy()
        want = np.zeros(x.shape) if want is None else want
        if got.shape != np.shape(want) or not close_scaled(got, want, 1 + np.abs(want).max(initial=0), 1e-9):
            r.bad(sig + " " + k, "%s: autograd gives %s for %s, the NumPy renderer %s" % (text, got.ravel()[:6], k, np.ravel(want)[:6]))
            return False
    return True


def scene_case(r, case):
    j = sum(map(ord, case["mesh"] + case["kind"])) + case["pose"] * 5 + case["cw"]
    depth = case["kind"] == "depth"
    kind = "c1" if depth else case["kind"]
    for i, (sigma, ipc, bg, cull, pc) in enumerate(itertools.product((0.0, 0.75, 2.5), (True, False), ("color", "image"), (True, False), (False, True))):
        if (i + i // 2 + i // 4 + i // 8 + i // 16 + j) % case["step"]:
            continue
        sigma = 0.3 if sigma == 0.75 and cull == ipc else sigma
        light, amb = LIGHTS[(i + i // 4 + j) % 4]
        sp = Spec(mesh=case["mesh"], kind=kind, cw=case["cw"], light=light, ambient=amb, pose=POSES[case["pose"]], dist=DIST[(i // 3 + j) % 2], unit=UNITS[(i // 2 + j) % 4], size=((7, 6), (6, 8))[(i // 7 + j) % 2],
                  deform=(i // 2) % 2, sigma=sigma, ipc=ipc, bg=bg, cull=cull, pc=pc)
        text = "%s sigma=%s ipc=%s bg=%s cull=%s pc=%s light=%s" % (case, sigma, ipc, bg, cull, pc, light)
        r.n += 1
        plain = (None, None, np.array, list, None, None, tuple)[(i + j) % 7]
        text += " light as %s" % plain
        s, cam, leaf = torch_scene(sp, plain)
        before = {k: x.detach().numpy().copy() for k, x in leaf.items()}
        img, z, _ = numpy_grads(sp, depth, None)
        if depth:
            timg = s.render_depth(cam, depth_scale=0.5, backface_culling=cull)
        else:
            timg, tz = s.render(cam, return_z_buffer=True, backface_culling=cull)
            tz = np.asarray(tz.detach() if isinstance(tz, torch.Tensor) else tz)
            if tz.shape != z.shape or not close(np.where(np.isinf(tz), 9e9, tz), np.where(np.isinf(z), 9e9, z), 1e-9):
                r.bad("z-buffer", "%s: z-buffer of the PyTorch scene differs (shape %s)" % (text, tz.shape))
                return
        if tuple(timg.shape) != img.shape or not close_scaled(timg.detach().numpy(), img, 1 + np.abs(img).max(), 1e-10):
            r.bad("image", "%s: the PyTorch image differs from the NumPy image" % text)
            return
        if pc:
            continue
        if not cull:  # gradients without culling may be unsupported: then both raise
            try:
                numpy_grads(sp, depth, np.ones(img.shape))
            except BaseException:
                try:
                    timg.sum().backward()
                    r.bad("unsupported", "%s: the NumPy renderer refuses the backward pass, the PyTorch one does not" % text)
                except BaseException:
                    r.count("unsupported by both")
                continue
        kept = timg.detach().numpy().copy()
        for name, loss, a in adjoints(img.shape):
            for x in leaf.values():
                x.grad = None
            loss(timg).backward(retain_graph=True)
            g = numpy_grads(sp, depth, np.ascontiguousarray(a))[2]
            if not same_grads(r, leaf, g, "%s adjoint %s" % (text, name), "gradient"):
                return
        if not np.array_equal(timg.detach().numpy(), kept):
            r.bad("image modified", text)
        for x in leaf.values():
            x.grad = None
        timg.detach().mul_(-0.5)
        loss(timg).backward(retain_graph=True)
        if not same_grads(r, leaf, g, "%s after an in-place modification of the image" % text, "gradient"):
            return
        for x in leaf.values():
            x.grad = None
        G = torch.tensor(np.ascontiguousarray(a))
        timg.backward(G, retain_graph=True)
        if not np.array_equal(G.numpy(), a):
            r.bad("adjoint modified", "%s: the gradient tensor given to backward was modified" % text)
            return
        if not same_grads(r, leaf, g, "%s adjoint given to backward" % text, "gradient"):
            return
        for k, x in leaf.items():
            if not np.array_equal(x.detach().numpy(), before[k]):
                r.bad("tensor modified", "%s: %s" % (text, k))
        r.key(np.round(kept, 6).tobytes())


# ----- histories
OPS = ("r0", "r1", "rd", "rn", "r2d", "set", "sigma", "b0", "b1", "b2", "sum", "inplace")
POSE = {"r0": POSES[0], "r1": POSES[1], "rd": POSES[0], "rn": POSES[1]}
_memo = {}


def content_spec(kind, state):
    mesh, col = ("octa", "c1") if kind == "rn" else ("tetra", "c1")
    return Spec(mesh=mesh, kind=col, light=(0.25, -0.5, -0.75) if kind != "rn" else None, ambient=0.25, pose=POSE[kind], size=(6, 5), sigma=state[1], deform=2 * state[0] if kind != "rn" else 0)


def scene2d(state):
    """Arguments of a 2D scene: two overlapping triangles."""
    ij = np.array([[0.3, 0.4], [4.7, 1.1], [1.2, 3.9], [3.3, 0.2], [4.8, 4.1], [0.7, 2.6]]) + 0.25 * hashed(12, 3 + state[0]).reshape(6, 2)
    f = np.array([[0, 1, 2], [3, 4, 5]], dtype=np.uint32)
    return ij, dict(faces=f, faces_uv=f, depths=np.array([1.0, 1.1, 1.2, 2.0, 2.1, 2.2]), textured=np.zeros(2, bool), uv=np.zeros((6, 2)), shade=np.zeros(6), shaded=np.zeros(2, bool), edgeflags=np.ones((2, 3), bool),
                    height=5, width=6, nb_colors=1, texture=np.zeros((0, 0)), background_image=None, background_color=np.array([0.5]), backface_culling=True, clockwise=True)


ADJ = [hashed(30, 3 + 4 * k).reshape(5, 6, 1) - 0.25 for k in range(3)] + [np.ones((5, 6, 1))]


def expected(kind, state, a):
    """Image and, for adjoint number a, gradients from NumPy."""
    key = (kind, state, a)
    if key not in _memo:
        if kind == "r2d":
            ij, kw = scene2d(state)
            s = dr.Scene2D(ij=ij, colors=0.25 + hashed(6, 5).reshape(6, 1), **kw)
            img, z = s.render(sigma=state[1])
            s.clear_gradients()
            g = None
            if a is not None:
                s.render_backward(ADJ[a].copy())
                g = dict(ij=s.ij_b, colors=s.colors_b)
            _memo[key] = np.array(img), g
        else:
            sp = content_spec(kind, state)
            img, z, g = numpy_grads(sp, kind == "rd", None if a is None else ADJ[a])
            _memo[key] = img, g
    return _memo[key]


class Holder:
    """Minimal scene for the 2D function."""


class World:
    def __init__(self):
        self.state = [0, 1.0]
        sp = content_spec("r0", (0, 1.0))
        self.s, _, self.leaf = torch_scene(sp)
        self.cam = {k: CameraPytorch(content_spec(k, (0, 1.0)).E, content_spec(k, (0, 1.0)).K, 5, 6) for k in POSE}
        self.s2, _, self.leaf2 = torch_scene(content_spec("rn", (0, 1.0)))
        self.hold = Scene3DPytorch()
        ij, kw = scene2d((0, 1.0))
        self.hold.scene_2d = dr.Scene2D(ij=ij, colors=np.zeros((6, 1)), **kw)
        self.col2d = T(0.25 + hashed(6, 5).reshape(6, 1))
        self.images = []  # (kind, state, tensor, copy, leaves by name)
        self.acc = {}  # id of leaf -> (leaf, expected gradient)
        self.given = []
        for x in list(self.leaf.values()) + list(self.leaf2.values()) + [self.col2d]:
            self.track(x)

    def track(self, x):
        self.given.append((x, x.detach().numpy().copy()))
        self.acc[id(x)] = [x, np.zeros(x.shape)]

    def add(self, leaves, g):
        for k, v in g.items():
            if k in leaves:
                self.acc[id(leaves[k])][1] = self.acc[id(leaves[k])][1] + v

    def step(self, r, op, text):
        st = tuple(self.state)
        if op in ("r0", "r1", "rd", "rn", "r2d"):
            if op == "r2d":
                leaves = dict(ij=T(scene2d(st)[0]), colors=self.col2d)
                self.track(leaves["ij"])
                self.hold.sigma = st[1]
                t = TorchDifferentiableRender2D(leaves["ij"], leaves["colors"], self.hold)
            else:
                s = self.s2 if op == "rn" else self.s
                s.sigma = st[1]
                leaves = dict(self.leaf2 if op == "rn" else self.leaf)
                t = s.render_depth(self.cam[op], depth_scale=0.5) if op == "rd" else s.render(self.cam[op])
            want = expected(op, st, None)[0]
            if tuple(t.shape) != want.shape or not close_scaled(t.detach().numpy(), want, 1 + np.abs(want).max(), 1e-10):
                r.bad("image", "%s: image differs from the NumPy image" % text)
                return
            self.images.append((op, st, t, want.copy(), leaves))
        elif op == "set":
            self.state[0] ^= 1
            v = T(content_spec("r0", tuple(self.state)).V)
            self.track(v)
            self.leaf = dict(self.leaf, vertices=v)
            self.s.mesh.set_vertices(v)
        elif op == "sigma":
            self.state[1] = 2.5 if self.state[1] == 1.0 else 1.0
            self.s.sigma = self.s2.sigma = self.hold.sigma = self.state[1]
        elif op == "inplace":  # the caller owns the returned image and z-buffer
            t, c = self.images[-1][2:4]
            t.detach().mul_(-0.5)
            c *= -0.5
            for scene in (self.s, self.s2, self.hold):
                z = getattr(scene, "z_buffer", None)
                if isinstance(z, torch.Tensor):
                    z.fill_(0)
        elif op[0] == "b":
            k = int(op[1])
            kind, s0, t, _, leaves = self.images[k]
            (t * torch.tensor(ADJ[k])).sum().backward(retain_graph=True)
            self.add(leaves, expected(kind, s0, k)[1])
        elif op == "sum":
            sum(t.sum() for _, _, t, _, _ in self.images).backward(retain_graph=True)
            for kind, s0, t, _, leaves in self.images:
                self.add(leaves, expected(kind, s0, 3)[1])
        for x, g in self.acc.values():
            got = np.zeros(x.shape) if x.grad is None else x.grad.numpy()
            if not close_scaled(got, g, 1 + np.abs(g).max(initial=0), 1e-9):
                r.bad("history gradient", "%s: accumulated gradient %s, expected %s" % (text, got.ravel()[:6], g.ravel()[:6]))
                return
        for _, _, t, c, _ in self.images:
            if not close_scaled(t.detach().numpy(), c, 1 + np.abs(c).max(), 1e-10):
                r.bad("image modified", "%s: an image rendered earlier was modified" % text)
                return
        for x, c in self.given:
            if not np.array_equal(x.detach().numpy(), c):
                r.bad("tensor modified", "%s: a given tensor was modified" % text)
                return


def words(depth, first):
    def rec(w, nimg):
        if len(w) == depth:
            if w[-1][0] == "b" or w[-1] == "sum":
                yield w
            return
        for i, op in enumerate(OPS):
            if len(w) < len(first) and i != first[len(w)]:
                continue
            if op[0] == "b" and int(op[1]) >= nimg or op == "sum" and nimg < 2:
                continue
            if op[0] == "r" and nimg == 3:
                continue
            if op == "inplace" and (not nimg or op in w):
                continue
            if w and op == w[-1] and op in ("set", "sigma") or w and (w[-1], op) == ("sigma", "set"):
                continue
            if not w and op == "set":
                continue
            if w and op[0] == w[-1][0] == "b" and op < w[-1]:
                continue  # adjacent backward passes commute
            yield from rec(w + [op], nimg + (op[0] == "r"))
    yield from rec([], 0)


def history_case(r, case):
    states = set()
    for w in words(case["depth"], case["first"]):
        world = World()
        r.n += 1
        for i, op in enumerate(w):
            try:
                world.step(r, op, "history %s" % w[:i + 1])
            except Exception as e:
                r.bad("exception:" + type(e).__name__, "history %s: %r" % (w[:i + 1], e))
            if r.msgs:
                return
            r.count("transitions")
            states.add((tuple(world.state), tuple((a[0], a[1]) for a in world.images)))
        r.key(tuple(w))
    r.count("traces", r.n)
    r.count("states", len(states))


def check(case):
    r = R()
    r.n = 0
    if case["part"] == "scene":
        try:
            scene_case(r, case)
        except Exception as e:
            import traceback
            r.bad("exception:" + type(e).__name__, "%s: %s" % (case, traceback.format_exc()[-500:]))
    else:
        history_case(r, case)
    return r
