"""C24: every history of steps, resets, observations and initial poses of every mesh fitter, against an independent model of the optimisation."""
import contextlib
import io
import itertools

import numpy as np
import torch

import camref
import meshes
from c14 import reference
from dlib import close, hashed, quat_rot, vb
from deodr import mesh_fitter as nf
from deodr.pytorch import mesh_fitter_pytorch as tf
from runner import R
from s3d import Spec

torch.set_num_threads(1)
ID = "C24"
LEVEL = "model_checking"
RULE = ("12 steps, steps that check their gradient, 502 steps before a reset, and all words of length 4 (thorough: 6) over {step, reset, observation A, observation B, initial pose 1, steps of a second fitter of the same class, the caller overwriting the results it was given, direct calls of render and render_backward} for each fitter (NumPy and PyTorch depth, colour, multi-frame, LBFGS), "
        "update flags, inertia/damping and 1-3 frames; the model keeps vertices, poses, speeds, lights and colour and predicts image, energy and the update from the reference renderer, reference gradients and the documented momentum rule; "
        "state = events since the last reset; histories with the same events must agree to the last digits")
ASSUME = ["no observation pixel within 1e-9 of an edge or depth tie of the rendered mesh (such histories are cut)", "the fixed step sizes of lights and colours are constants, inferred from the first step"]
CASE_LIMIT = 600

KINDS = {
    "depth": nf.MeshDepthFitter, "rgb": nf.MeshRGBFitterWithPose, "multi": nf.MeshRGBFitterWithPoseMultiFrame,
    "tdepth": tf.MeshDepthFitter, "trgb": tf.MeshRGBFitterWithPose, "lbfgs": tf.MeshDepthFitterPytorchOptim,
}
OPS = ("step", "reset", "A", "B", "init", "other", "poke", "raw")
EULER = [np.array([0.25, -0.5, 0.375]), np.array([-1.0, 0.125, 0.75])]
TRANS = [np.array([0.125, -0.25, 0.5]), np.array([-0.375, 0.0, 0.25])]
SIZE = {"A": (8, 10), "B": (9, 8)}
STEPNAMES = ("vertices", "quaternion", "translation")


def configs():
    for k in ("depth", "tdepth"):
        for conf in range(2):
            yield dict(fitter=k, conf=conf, frames=0, lights=True, color=True)
    for k in ("rgb", "trgb"):
        for lights, color in itertools.product((True, False), repeat=2):
            yield dict(fitter=k, conf=int(lights ^ color), frames=0, lights=lights, color=color)
    for frames in (1, 2, 3):
        for lights, color in itertools.product((True, False), repeat=2):
            if frames == 2 or lights == color:
                yield dict(fitter="multi", conf=int(lights ^ color ^ (frames == 1)), frames=frames, lights=lights, color=color)
    yield dict(fitter="lbfgs", conf=0, frames=0, lights=True, color=True)


def cases(tier):
    depth = 6 if tier == "thorough" else 4
    for c in configs():
        if tier == "quick":
            yield dict(c, depth=depth, first=[])
        else:
            for a, b in itertools.product(OPS, repeat=2):
                yield dict(c, depth=depth, first=[a, b])
        yield dict(c, depth=0, first=["long"])


class Setup:
    """Inputs of a fitter; all arrays are handed over, `kept` holds copies."""

    def __init__(self, c):
        self.c = c
        name = ("octa", "bipyr3")[c["conf"]]
        V, F = meshes.closed()[name]
        n = len(V)
        self.V = V * (1 + 0.125 * hashed(3, 4)) + 0.125 * hashed(3 * n, 6).reshape(n, 3) + [0.25, 0.0, -0.125]
        self.F = F.copy()
        k = c["frames"]
        self.pose = []
        for i in range(2):
            e, t = EULER[i], TRANS[i]
            if k:
                e = np.array([e + 0.25 * j for j in range(k)])
                t = np.array([t + [0.125 * j, 0, -0.25 * j] for j in range(k)])
            self.pose.append((e.copy(), t.copy()))
        self.color = np.array([0.5 if c["conf"] else 1.0, 0.25, 0.75])  # a channel crosses one
        self.light = np.array([-0.25, 0.5, 0.375 if c["conf"] else 0.0])
        self.ambient = 0.375 if c["conf"] else 0.0  # the ambient light crosses zero
        self.bg = np.array([0.125, 0.0, 0.25])
        self.images = {}
        for im, (w, h) in SIZE.items():
            if "depth" in c["fitter"] or c["fitter"] == "lbfgs":
                self.images[im] = 0.25 + 0.75 * hashed(w * h, 3 + ord(im)).reshape(h, w)
            else:
                shot = [0.75 * hashed(w * h * 3, 3 + ord(im) + 5 * j).reshape(h, w, 3) for j in range(max(k, 1))]
                if not c["conf"]:
                    shot = [x * (np.array([2.0, 1.0, 1.0]) if im == "A" else 0.0625) for x in shot]  # bright, then dark
                self.images[im] = shot if k else shot[0]
        self.focal = {"A": None, "B": 14.0}
        if c["fitter"] == "lbfgs":
            self.focal["A"] = 18.0
        self.dist = {"A": None, "B": np.array([0.05, -0.02, 0.01, 0.0, 0.0])}
        if c["fitter"] in ("multi", "lbfgs"):
            self.dist = {"A": None, "B": None}
        self.inertia, self.damping = ((0.96, 0.05), (0.5, 0.25))[c["conf"]]
        self.cregu = (20.0, 3.5)[c["conf"]]
        self.scale, self.maxd = ((0.1, 1.0), (0.25, 0.75))[c["conf"]]
        self.cdata = 1.5
        self.kept = [(a, a.copy()) for a in self.arrays()]

    def arrays(self):
        out = [self.V, self.F, self.color, self.light, self.bg]
        for p in self.pose:
            out += list(p)
        for im in self.images.values():
            out += im if isinstance(im, list) else [im]
        return out + [d for d in self.dist.values() if d is not None]

    def make(self):
        c = self.c
        cls = KINDS[c["fitter"]]
        e, t = self.pose[0]
        if c["fitter"] == "lbfgs":
            f = cls(self.V, self.F, e, t, cregu=self.cregu)
        elif "depth" in c["fitter"]:
            f = cls(self.V, self.F, e, t, cregu=self.cregu, inertia=self.inertia, damping=self.damping)
        else:
            kw = dict(cdata=self.cdata) if c["fitter"] == "multi" else {}
            f = cls(self.V, self.F, e, t, self.color, self.light, self.ambient, cregu=self.cregu, inertia=self.inertia, damping=self.damping, update_lights=c["lights"], update_color=c["color"], **kw)
            f.set_background_color(self.bg)
        if "depth" in c["fitter"] or c["fitter"] == "lbfgs":
            f.set_max_depth(self.maxd)
            f.set_depth_scale(self.scale)
        self.observe(f, "A")
        return f

    def observe(self, f, im):
        if self.c["fitter"] == "multi":
            f.set_images(self.images[im], focal=self.focal[im])
        elif self.c["fitter"] == "lbfgs":
            f.set_image(self.images[im], focal=self.focal[im])
        else:
            f.set_image(self.images[im], focal=self.focal[im], distortion=self.dist[im])


def unq(q):
    return q / np.sqrt((q * q).sum())


def rotm(q):
    """Rotation matrix of a quaternion x, y, z, w (complex allowed)."""
    x, y, z, w = unq(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def euler_q(e):
    """Quaternion of the extrinsic zyx angles, from products of elementary rotations."""
    def mul(a, b):
        return np.concatenate([a[3] * b[:3] + b[3] * a[:3] + np.cross(a[:3], b[:3]), [a[3] * b[3] - a[:3].dot(b[:3])]])
    def axis(k, t):
        v = np.zeros(4)
        v[k], v[3] = np.sin(t / 2), np.cos(t / 2)
        return v
    return mul(axis(0, e[2]), mul(axis(1, e[1]), axis(2, e[0])))


class Obj:
    pass


class Ambiguous(Exception):
    pass


class Model:
    """State of the optimisation, shared per events since the last reset."""

    def __init__(self, su, pose, cam):
        self.su, self.cam = su, cam  # cam: image name -> (E, K) of the code (checked to be constant)
        e, t = su.pose[pose]
        self.v = su.V.copy()
        k = max(su.c["frames"], 1)
        e2, t2 = e.reshape(k, 3), t.reshape(k, 3)
        self.q = np.array([euler_q(x) for x in e2])
        self.t = t2.copy()
        self.light, self.amb, self.color = su.light.copy(), su.ambient, su.color.copy()
        self.speed = dict(v=0 * self.v, q=0 * self.q, t=0 * self.t, light=0 * self.light, amb=0.0, color=0 * self.color)
        adj = reference([tuple(int(x) for x in f) for f in su.F], len(su.V))[4]
        L = np.diag(adj.sum(1)) - adj
        self.LL = L.T.dot(L)

    def copy(self):
        o = Obj()
        o.__class__ = Model
        o.__dict__.update(self.__dict__)
        o.speed = dict(self.speed)
        return o

    def spec(self, im, T):
        su = self.su
        sp = Spec(mesh="octa", kind="c1", size=SIZE[im], sigma=1.0)
        sp.V, sp.F = T, su.F
        if su.c["fitter"] == "lbfgs":
            sp.F = su.F[:, ::-1].copy()
        sp.E, sp.K = self.cam[im]
        sp.dist = None if su.dist[im] is None else tuple(su.dist[im])
        return sp

    def frame(self, im, k, adj=None):
        """-> image, squared differences with frame k, gradients of their sum (of the image times adj when given)."""
        su = self.su
        T = self.vc.dot(rotm(self.q[k]).T) + self.t[k]
        sp = self.spec(im, T)
        if "depth" in su.c["fitter"] or su.c["fitter"] == "lbfgs":
            sp.nc, sp.bgval, sp.colors = 1, np.array([su.maxd]), np.zeros((len(T), 1))
            s2, ref = sp.compose("depth", su.scale)
            img, z, _, amb = ref.render(1.0)
            obs = su.images[im][:, :, None]
            out = np.clip(img, 0, su.maxd)
            if (np.minimum(abs(img), abs(img - su.maxd))[abs(img - su.maxd) > 1e-14] < 1e-9).any():
                raise Ambiguous
            b = (2 * (out - obs) if adj is None else adj) * ((img >= 0) & (img <= su.maxd + 1e-14))
        else:
            sp.nc, sp.bgval, sp.colors = 3, su.bg, np.tile(self.color, (len(T), 1))
            sp.light, sp.ambient = tuple(self.light), self.amb
            s2, ref = sp.compose("color")
            img, z, _, amb = ref.render(1.0)
            obs = su.images[im][k] if su.c["frames"] else su.images[im]
            out = img
            b = 2 * (out - obs) if adj is None else adj
        if sp.margin < 1e-7 or amb.any():
            raise Ambiguous
        g = ref.grad(1.0, b)
        g = sp.vjp_depth(g, su.scale) if sp.nc == 1 else sp.vjp_color(g)
        Tb = g["vertices"]
        out_g = dict(v=Tb.dot(rotm(self.q[k])), t=Tb.sum(0), q=np.zeros(4))
        for j in range(4):
            q = self.q[k].astype(complex)
            q[j] += 1e-30j
            out_g["q"][j] = (self.vc.dot(rotm(q).T).imag * Tb).sum() / 1e-30
        if sp.nc == 3:
            out_g.update(light=g["light"], amb=g["ambient"], color=g["colors"].sum(0))
        return out, ((out - obs) ** 2).sum(2), out_g

    def step(self, im, alpha, factor, cap):
        """-> (energy, images, diffs), gradients and the state after the step; alpha: step sizes of lights and colour (dict)."""
        su = self.su
        o = self.copy()
        o.vc = self.v - self.v.mean(0)
        self.vc = o.vc
        nfr = max(su.c["frames"], 1)
        coef = su.cdata / nfr if su.c["frames"] else 1.0
        imgs, diffs, gs = zip(*[self.frame(im, k) for k in range(nfr)])
        d = (self.v if su.c["fitter"] == "lbfgs" else o.vc) - su.V
        rig = su.cregu * self.LL.dot(d)
        energy = coef * sum(x.sum() for x in diffs) + 0.5 * (d * rig).sum()
        G = dict(v=coef * sum(g["v"] for g in gs), q=coef * np.array([g["q"] for g in gs]), t=coef * np.array([g["t"] for g in gs]))
        G["v"] = G["v"] - G["v"].mean(0) + rig
        if "amb" in gs[0]:
            for k in ("light", "amb", "color"):
                G[k] = coef * sum(g[k] for g in gs)
        o.G = G
        if su.c["fitter"] != "lbfgs":
            o.v = o.vc
            names = dict(v="vertices", q="quaternion", t="translation")
            for k in G:
                if k in names:
                    s = np.clip(-G[k] * factor[names[k]], -cap[names[k]], cap[names[k]])
                else:
                    on = su.c["color"] if k == "color" else su.c["lights"]
                    if not on:
                        continue
                    s = -G[k] * alpha[k]
                o.speed[k] = (1 - su.damping) * (self.speed[k] * su.inertia + (1 - su.inertia) * s)
                setattr(o, k, getattr(o, k) + o.speed[k])
            o.q = np.array([unq(q) for q in o.q])
        return (energy, imgs, diffs), o


def energy_vertices(f):
    return f.energy._vertices if hasattr(f.energy, "_vertices") else f.energy.vertices


def params(f, c):
    """Parameters of a fitter of the code."""
    n = lambda x: x.detach().numpy().copy() if isinstance(x, torch.Tensor) else np.array(x, dtype=float)
    if c["fitter"] == "lbfgs":
        return dict(v=n(energy_vertices(f)), q=n(f.energy.quaternion).reshape(-1, 4), t=n(f.energy.translation).reshape(-1, 3))
    out = dict(v=n(f.vertices), q=n(f.transform_quaternion).reshape(-1, 4), t=n(f.transform_translation).reshape(-1, 3))
    if "rgb" in c["fitter"] or c["fitter"] == "multi":
        out.update(light=n(f.light_directional), amb=n(f.light_ambient), color=n(f.mesh_color))
    return out


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.isfinite(a).all() and np.abs(a - b).max(initial=0) <= tol * (1 + np.abs(b).max(initial=0))


def run_step(f):
    with contextlib.redirect_stdout(io.StringIO()):
        e, im, di = f.step()
    if isinstance(e, torch.Tensor):
        e = e.detach().numpy()
    aslist = lambda x: [np.asarray(y) for y in x] if isinstance(x, list) else [np.asarray(x)]
    return float(np.asarray(e)), aslist(im), aslist(di)


class Checker:
    def __init__(self, r, c):
        self.r, self.c = r, c
        self.models = {}  # events since reset -> (Model, alpha)
        self.seen = {}  # events since reset -> results of the code
        self.alpha = None
        su = Setup(c)
        with contextlib.redirect_stdout(io.StringIO()):
            f = su.make()
        self.cam = {}
        for im in ("B", "A"):
            su.observe(f, im)
            cam = f.energy.camera if c["fitter"] == "lbfgs" else f.camera
            n = lambda x: np.array(x.detach().numpy() if isinstance(x, torch.Tensor) else x, dtype=float)
            self.cam[im] = (n(cam.extrinsic), n(cam.intrinsic))
            w, h = SIZE[im]
            foc = su.focal[im] or 2.0 * w
            if not close(self.cam[im][1], np.array([[foc, 0, w / 2], [0, foc, h / 2], [0, 0, 1]]), 1e-12):
                r.bad("camera", "%s: intrinsic %s for observation %s" % (c, self.cam[im][1], im))
        self.f0 = f
        if c["fitter"] != "lbfgs":
            self.factor = {k: getattr(f, "step_factor_" + k) for k in STEPNAMES}
            self.cap = {k: getattr(f, "step_max_" + k) for k in STEPNAMES}
        else:
            self.factor = self.cap = None

    def predict(self, ev):
        """Model result of the step that ends the events ev = (pose, images of the steps...)."""
        if ev not in self.models:
            su = Setup(self.c)
            if len(ev) == 1:
                self.models[ev] = (None, Model(su, ev[0], self.cam))
            else:
                prev = self.predict(ev[:-1])
                if prev is None:
                    self.models[ev] = None
                else:
                    try:
                        self.models[ev] = prev[1].step(ev[-1], self.alpha or dict(light=0.0, amb=0.0, color=0.0), self.factor, self.cap)
                    except Ambiguous:
                        self.models[ev] = None
                        self.r.count("cut: ambiguous pixel")
                        self.r.counts_cut = True
        return self.models[ev]

    def infer(self, before, after, o, ev):
        """Step sizes of lights and colour from the first step (speeds are zero before)."""
        su = Setup(self.c)
        self.alpha = {}
        for k in ("light", "amb", "color"):
            on = self.c["color"] if k == "color" else self.c["lights"]
            if k not in o.G or not on:
                continue
            d = (np.asarray(after[k]) - before[k]).ravel()
            g = -np.asarray(o.G[k]).ravel() * (1 - su.damping) * (1 - su.inertia)
            a = d.dot(g) / g.dot(g)
            if not (a > 0) or np.abs(d - a * g).max() > 1e-6 * np.abs(d).max():
                self.r.bad("direction " + k, "%s: first step changes %s by %s, negative gradient %s" % (self.c, k, d, g))
            self.alpha[k] = a
        self.models.clear()

    def raw(self, f, su, im, ev, text):
        """render and render_backward of the fitter, called directly."""
        r, c = self.r, self.c
        if c["fitter"] not in ("depth", "rgb", "multi"):
            return False
        p = self.predict(ev)
        if p is None or (self.alpha is None and c["fitter"] != "depth"):
            return False
        m = p[1].copy()
        m.vc = m.v
        w, h = SIZE[im]
        frames = range(max(c["frames"], 1))
        if c["fitter"] == "multi":  # a single image with the same camera
            f.set_image(su.images[im][0], focal=su.focal[im])
        adj = [hashed(w * h * 3, 31 + k).reshape(h, w, 3)[:, :, :1 if c["fitter"] == "depth" else 3] - 0.375 for k in frames]
        try:
            if (ev, im, "raw") not in self.models:
                self.models[ev, im, "raw"] = [m.frame(im, k, adj[k]) for k in frames]
        except Ambiguous:
            r.count("cut histories")
            return False
        want = self.models[ev, im, "raw"]
        if c["fitter"] == "multi":
            f.clear_gradients()
        for k in frames:
            img = np.array(f.render(idframe=k) if c["fitter"] == "multi" else f.render())
            if not near(img, want[k][0], 1e-7):
                r.bad("render", "%s: image %d of render() differs from the rendering of the parameters" % (text, k))
            b = adj[k].copy()
            f.render_backward(b)
            if not np.array_equal(b, adj[k]):
                r.bad("adjoint modified", "%s: render_backward() modified its argument" % text)
        g = dict(v=sum(x[2]["v"] for x in want), q=np.array([x[2]["q"] for x in want]), t=np.array([x[2]["t"] for x in want]))
        got = dict(v=vb(f), q=f.transform_quaternion_b, t=f.transform_translation_b)
        if c["fitter"] != "depth":
            for a in ("light", "amb", "color"):
                g[a] = sum(x[2][a] for x in want)
            got.update(light=f.light_directional_b, amb=f.light_ambient_b, color=f.mesh_color_b)
        for a in g:
            if not near(np.reshape(got[a], np.shape(g[a])), g[a], 1e-7):
                r.bad("gradient " + a, "%s: render_backward() gives %s, expected %s" % (text, np.ravel(got[a])[:6], np.ravel(g[a])[:6]))
        r.count("transitions")
        return True

    def history(self, word):
        r, c = self.r, self.c
        su = Setup(c)
        text = "%s: history %s" % (c, word)
        with contextlib.redirect_stdout(io.StringIO()):
            f = su.make()
        other = None
        im, init, ev = "A", 0, (0,)
        results = []
        for i, op in enumerate(word):
            if op == "step":
                before = params(f, c)
                e, imgs, diffs = run_step(f)
                after = params(f, c)
                ev = ev + (im,)
                if c["fitter"] == "lbfgs" and len(ev) > 2:  # the optimiser is PyTorch's: take its state
                    m = Model(su, 0, self.cam)
                    m.v, m.q, m.t = before["v"], before["q"], before["t"]
                    try:
                        p = m.step(im, {}, None, None)
                    except Ambiguous:
                        p = None
                else:
                    p = self.predict(ev)
                if p is None:
                    r.count("cut histories")
                    return
                if self.alpha is None and p[1].su.c["fitter"] not in ("lbfgs", "depth", "tdepth"):
                    self.infer(before, after, p[1], ev)
                    p = self.predict(ev)
                (we, wi, wd), o = p
                if not near(e, we, 1e-8):
                    r.bad("energy", "%s: step %d returns energy %r, expected %r" % (text, i, e, we))
                if len(imgs) != len(wi) or len(diffs) != len(wd):
                    r.bad("result", "%s: step %d returns %d images and %d differences" % (text, i, len(imgs), len(diffs)))
                    return
                for k, (a, b) in enumerate(zip(imgs, wi)):
                    if not near(a, b[:, :, 0] if b.shape[2] == 1 else b, 1e-7):
                        r.bad("image", "%s: step %d: image %d differs from the rendering of the parameters" % (text, i, k))
                for k, (a, b) in enumerate(zip(diffs, wd)):
                    if not near(a, b, 1e-7):
                        r.bad("difference", "%s: step %d: difference image %d does not match the observation" % (text, i, k))
                if c["fitter"] != "lbfgs":
                    for k, x in after.items():
                        if not near(x, getattr(o, k), 1e-8):
                            on = {"color": c["color"], "light": c["lights"], "amb": c["lights"]}.get(k, True)
                            r.bad(("update " if on else "flag ") + k, "%s: step %d: %s becomes %s, expected %s" % (text, i, k, np.ravel(x)[:6], np.ravel(getattr(o, k))[:6]))
                    if np.abs(np.linalg.norm(after["q"], axis=1) - 1).max() > 1e-12:
                        r.bad("unit quaternion", "%s: step %d: norms %s" % (text, i, np.linalg.norm(after["q"], axis=1)))
                else:
                    for k, a in dict(v=energy_vertices(f), q=f.energy.quaternion, t=f.energy.translation).items():
                        pass
                full = (e,) + tuple(np.concatenate([x.ravel() for x in imgs + diffs])) + tuple(np.concatenate([np.ravel(x) for x in after.values()]))
                key = tuple(ev) if c["fitter"] != "lbfgs" else tuple(x for x in word[:i + 1] if x in ("A", "B", "step"))
                if key in self.seen:
                    if not near(self.seen[key], full, 1e-13):
                        r.bad("restart", "%s: step %d differs from the same step of another history by %g" % (text, i, np.abs(np.array(self.seen[key]) - full).max()))
                else:
                    self.seen[key] = full
                results += [(x, x.copy()) for x in imgs + diffs]
                r.count("transitions")
                r.key(c["fitter"], c["frames"], c["lights"], c["color"], key)
            elif op == "reset":
                if c["fitter"] == "lbfgs":
                    return
                f.reset()
                ev = (init,)
                m = Model(su, init, self.cam)
                for k, x in params(f, c).items():
                    if not near(x, getattr(m, k), 1e-14):
                        r.bad("reset " + k, "%s: after reset %s is %s" % (text, k, np.ravel(x)[:6]))
            elif op in ("A", "B"):
                im = op
                su.observe(f, im)
            elif op == "init":
                if c["fitter"] == "lbfgs":
                    return
                init = 1
                f.set_mesh_transform_init(euler=su.pose[1][0], translation=su.pose[1][1])
            elif op == "raw":
                if not self.raw(f, su, im, ev, text):
                    return
            elif op == "other":
                if other is None:
                    with contextlib.redirect_stdout(io.StringIO()):
                        other = su.make()
                    su.observe(other, "B")
                run_step(other)
            elif op == "poke":  # the fitter hands out its arrays of results; what the caller does with them must not matter
                for x, y in results:
                    x[...] = 7.0
                results = []
            for a, b in su.kept:
                if not np.array_equal(a, b):
                    r.bad("inputs", "%s: an input array was modified by %s" % (text, op))
                    return
            for x, y in results:
                if not np.array_equal(x, y):
                    r.bad("results", "%s: a result returned earlier was modified by %s" % (text, op))
                    return
            if r.msgs:
                return


def words(depth, first):
    for w in itertools.product(OPS, repeat=depth - len(first)):
        w = tuple(first) + w
        if w[-1] not in ("step", "raw") or w[0] == "poke":
            continue
        if any(a == b and a not in ("step", "other") for a, b in zip(w, w[1:])):
            continue
        if any((a, b) in (("A", "B"), ("B", "A"), ("init", "A"), ("init", "B"), ("other", "A"), ("other", "B"), ("other", "init"), ("poke", "A"), ("poke", "B"), ("poke", "init"), ("poke", "other")) for a, b in zip(w, w[1:])):
            continue  # commute
        if any(a == "raw" and b not in ("step", "reset", "A", "B") for a, b in zip(w, w[1:])):
            continue
        yield w


def checked(r, c):
    """Steps that check their own gradient are steps, and longer histories follow the model."""
    if c["fitter"] == "lbfgs":
        return
    ch = Checker(r, c)
    ch.history(("step",) * 12)
    r.n += 1
    if c["fitter"] != "multi":
        return
    runs = []
    for word in itertools.product((False, True), repeat=3):
        su = Setup(c)
        with contextlib.redirect_stdout(io.StringIO()):
            f = su.make()
            out = []
            for k in word:
                e, im, di = f.step(check_gradient=True) if k else f.step()
                out += [np.array(e)] + [np.array(x) for x in im + di] + list(params(f, c).values())
        runs.append(out)
        r.n += 1
        for a, b in zip(runs[0], out):
            if not near(b, a, 1e-6):
                r.bad("checked step", "%s: steps with check_gradient=%s differ from those without" % (c, word))
                break
    r.count("transitions", 24)


def long(r, c):
    """Settings that take effect after 500 iterations do not survive a reset."""
    if c["fitter"] == "lbfgs":
        return
    ch = Checker(r, c)
    su = Setup(c)
    with contextlib.redirect_stdout(io.StringIO()):
        f = su.make()
        first = [run_step(f)[0] for _ in range(4)] + [params(f, c)["v"]]
        for _ in range(498):
            f.step()
        f.reset()
        again = [run_step(f)[0] for _ in range(4)] + [params(f, c)["v"]]
    for a, b in zip(first, again):
        r.n += 1
        if not near(a, b, 1e-13):
            r.bad("restart", "%s: 502 steps, reset, 4 steps: the run after the reset differs from the first one" % c)
    r.count("transitions", 506)


def check(case):
    r = R()
    r.n = 0
    if case["first"] == ["long"]:
        long(r, case)
        checked(r, case)
        return r
    ch = Checker(r, case)
    lengths = range(1, case["depth"] + 1) if not case["first"] else [case["depth"]]
    for w in ch_words(lengths, case):
        ch.history(w)
        r.n += 1
        if r.msgs:
            return r
    r.count("traces", r.n)
    r.count("states", len(ch.models))
    return r


def ch_words(lengths, case):
    yield ("step",)  # infers the step sizes
    for d in lengths:
        yield from words(d, case["first"])
