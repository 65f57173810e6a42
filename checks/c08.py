"""C08: histories of Scene2D calls; model: contents, last render, and the linear combination of gradients accumulated."""
import itertools

import numpy as np

from dlib import hashed
from runner import R
from scenes import DEPTHS, SHAPES, multi

ID = "C08"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all call sequences up to a depth, every model transition replayed on the implementation"
RULE = ("all sequences of operations (render/residual render at two sigmas, both backward passes with two adjoints and scaled adjoint, compare-and-backward with and without clearing in both modes, clear, "
        "in-place and by-assignment changes of the scene, operations on a second scene) up to depth 4 (quick) / 5 (thorough); after every operation results, gradients, caller-owned arrays and "
        "earlier results are compared with the model")
ASSUME = ["a backward pass is only specified when the scene has not been changed since the render it belongs to"]
GR = ("ij_b", "colors_b", "uv_b", "shade_b", "texture_b")
FIELDS = ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture")
H, W, C = 4, 5, 2
OBS = hashed(H * W * C, 3).reshape(H, W, C)
OBS2 = hashed(H * W * C, 8).reshape(H, W, C)
ADJ = {0: hashed(H * W * C, 5).reshape(H, W, C) - 0.4, 1: hashed(H * W * C, 6).reshape(H, W, C) * 3 - 1}
EADJ = {0: hashed(H * W, 5).reshape(H, W) - 0.4, 1: hashed(H * W, 6).reshape(H, W) * 3 - 1}
MASK = np.floor(hashed(H * W, 2).reshape(H, W) * 2)

OPS = ["render1", "render0", "err1", "back0", "back1", "eback0", "eback1", "cmp", "cmpe", "cmpacc", "clear", "move", "recolor",
       "o_render", "o_back", "o_cmp"]


def make(which, content):
    if which == 0:
        s = multi([SHAPES[0], SHAPES[4], SHAPES[5]], [DEPTHS[1], (0.4, 0.6, 0.5), DEPTHS[2]], 0, dict(clockwise=False), textured=4, width=W, height=H, nb_colors=C,
                  texture=0.25 + hashed(3 * 4 * C, 7).reshape(3, 4, C), background_image=hashed(H * W * C, 12).reshape(H, W, C))
    else:
        s = multi([SHAPES[2], SHAPES[3]], [DEPTHS[1], DEPTHS[0]], 1, dict(clockwise=True, integer_pixel_centers=False), textured=1, width=W, height=H, nb_colors=C,
                  texture=0.25 + hashed(2 * 2 * C, 7).reshape(2, 2, C))
    if content[0]:
        s.ij = s.ij + [0.25, 0.125]
        s.depths = s.depths * 1.25
    if content[1]:
        s.colors = s.colors[::-1].copy()
        s.texture = s.texture + 0.125
        if s.background_image is not None:
            s.background_image = s.background_image * 0.5
    return s


_cache = {}


def fresh(which, content, cfg):
    """Result arrays of a render on a fresh scene."""
    k = (which, content, cfg)
    if k not in _cache:
        s = make(which, content)
        _cache[k] = s.render(cfg[1]) if cfg[0] == "r" else s.render_error(OBS if cfg[2] == 0 else OBS2, cfg[1])
    return _cache[k]


def fresh_grad(which, content, cfg, adjname):
    k = (which, content, cfg, adjname)
    if k not in _cache:
        s = make(which, content)
        if cfg[0] == "r":
            s.render(cfg[1])
            if adjname == "cmp":
                img = fresh(which, content, cfg)[0]
                s.render_backward(2 * (img - OBS))
            else:
                s.render_backward(ADJ[adjname].copy())
        else:
            s.render_error(OBS if cfg[2] == 0 else OBS2, cfg[1])
            s.render_error_backward(np.ones((H, W)) if adjname == "cmp" else EADJ[adjname].copy())
        _cache[k] = {g: np.array(getattr(s, g)) for g in GR}
    return _cache[k]


class World:
    def __init__(self):
        self.s = [make(0, (0, 0)), make(1, (0, 0))]
        self.content = [(0, 0), (0, 0)]
        self.last = [None, None]
        self.acc = [[], []]
        self.owned = {}  # arrays that must not change -> copy
        self.watch = []
        for w in (0, 1):
            self.own_scene(w)
        for n, a in (("OBS", OBS), ("OBS2", OBS2), ("A0", ADJ[0]), ("A1", ADJ[1]), ("E0", EADJ[0]), ("E1", EADJ[1])):
            self.watch.append((n, a, a.copy()))

    def own_scene(self, w):
        self.owned[w] = [(n, getattr(self.s[w], n), getattr(self.s[w], n).copy()) for n in FIELDS]
        b = self.s[w].background_image if self.s[w].background_image is not None else self.s[w].background_color
        self.owned[w].append(("background", b, b.copy()))

    def key(self):
        from collections import Counter
        return (tuple(self.content), tuple(self.last), tuple(tuple(sorted(Counter(a).items(), key=repr)) for a in self.acc))

    def enabled(self, op):
        w = 1 if op.startswith("o_") else 0
        l = self.last[w]
        if op in ("back0", "back1", "o_back"):
            return l is not None and l[0] == "r"
        if op.startswith("eback"):
            return l is not None and l[0] == "e"
        return True

    def keep(self, name, arrays):
        for a in arrays:
            if isinstance(a, np.ndarray):
                self.watch.append((name, a, a.copy()))

    def apply(self, op, r):
        w = 1 if op.startswith("o_") else 0
        s = self.s[w]
        c = self.content[w]

        def same(got, cfg):
            exp = fresh(w, c, cfg)
            if len(got) != len(exp):
                r.bad("result:" + op, "returned %d arrays" % len(got))
            for g, e, n in zip(got, exp, ("image", "z_buffer", "err_buffer")):
                if g.shape != e.shape or not np.array_equal(g, e):
                    r.bad("result:" + op, "%s differs from that of a fresh scene (max %g)" % (n, np.nanmax(np.abs(np.where(g == e, 0, g - e)))))

        if op in ("render1", "render0", "o_render"):
            cfg = ("r", 0.0 if op == "render0" else 1.25)
            got = s.render(cfg[1])
            same(got, cfg)
            self.last[w] = cfg
            self.keep(op, got)
        elif op == "err1":
            n = 0 if self.last[w] is None or self.last[w][0] == "r" else 1 - self.last[w][2]
            cfg = ("e", 1.25, n)
            got = s.render_error(OBS if n == 0 else OBS2, 1.25)
            same(got, cfg)
            self.last[w] = cfg
            self.keep(op, got)
        elif op in ("back0", "back1", "o_back"):
            a = 1 if op == "back1" else 0
            s.render_backward(ADJ[a])
            self.acc[w].append((c, self.last[w], a))
        elif op in ("eback0", "eback1"):
            a = int(op[-1])
            s.render_error_backward(EADJ[a])
            self.acc[w].append((c, self.last[w], a))
        elif op in ("cmp", "cmpe", "cmpacc", "o_cmp"):
            e = op == "cmpe"
            clear = op != "cmpacc"
            got = s.render_compare_and_backward(OBS, sigma=1.25, antialiase_error=e, clear_gradients=clear)
            cfg = ("e", 1.25, 0) if e else ("r", 1.25)
            ref = fresh(w, c, cfg)
            same(got[:2], cfg if not e else cfg) if not e else same(got[:3], cfg)
            if not e:
                d = (ref[0] - OBS) ** 2
                if not (np.allclose(got[2], d) or np.allclose(got[2], d.sum(axis=2))):
                    r.bad("result:" + op, "residual is not the squared difference")
                loss = d.sum()
            else:
                loss = ref[2].sum()
            if abs(got[3] - loss) > 1e-9 * (1 + abs(loss)):
                r.bad("result:" + op, "loss %r instead of %r" % (got[3], loss))
            if clear:
                self.acc[w] = []
            self.acc[w].append((c, cfg, "cmp"))
            self.last[w] = cfg
            self.keep(op, got[:3])
        elif op == "clear":
            s.clear_gradients()
            self.acc[w] = []
        elif op == "move":
            self.content[w] = (1 - c[0], c[1])
            t = make(w, self.content[w])
            s.ij[...] = t.ij  # in place
            s.depths = t.depths  # by assignment
            self.last[w] = None
            self.own_scene(w)
        elif op == "recolor":
            self.content[w] = (c[0], 1 - c[1])
            t = make(w, self.content[w])
            s.colors = t.colors
            s.texture[...] = t.texture
            s.background_image = t.background_image
            self.last[w] = None
            self.own_scene(w)

    def verify(self, op, r):
        for w in (0, 1):
            exp = {}
            for c, cfg, a in self.acc[w]:
                g = fresh_grad(w, c, cfg, a)
                for k in GR:
                    exp[k] = exp.get(k, 0) + g[k]
            for k in GR:
                e = exp.get(k, np.zeros_like(getattr(self.s[w], k)))
                v = getattr(self.s[w], k)
                m = max(1.0, np.abs(e).max()) if np.size(e) else 1.0
                if v.shape != np.shape(e) or not np.all(np.abs(v - e) <= 1e-9 * m):
                    r.bad("gradient:" + k, "scene %d %s after %s: not the sum of the expected gradients (max diff %s)" % (w, k, op, np.abs(v - e).max()))
            for n, a, b in self.owned[w]:
                if not np.array_equal(a, b):
                    r.bad("modified:" + n, "%s of scene %d was modified by %s" % (n, w, op))
        for n, a, b in self.watch:
            if not np.array_equal(a, b):
                r.bad("modified:" + n, "array %s was modified by a later %s" % (n, op))
                np.copyto(a, b)


def run_sequence(seq, r, seen):
    wd = World()
    for op in seq:
        if not wd.enabled(op):
            return op
        wd.apply(op, r)
        r.count("transitions")
        wd.verify(op, r)
        r.key(wd.key())
        if [m for m in r.msgs]:
            r.bad("detail", "sequence %s (at %s)" % (list(seq), op))
            return "bad"
    return None


def cases(tier):
    d = 4 if tier == "quick" else 5
    for p in itertools.product(OPS, repeat=2):
        yield dict(prefix=p, depth=d)


def check(case):
    r = R()
    r.n = 0
    dead = set()
    for rest in itertools.product(OPS, repeat=case["depth"] - 2):
        seq = tuple(case["prefix"]) + rest
        if any(seq[:k] in dead for k in range(1, len(seq) + 1)):
            continue
        r.n += 1
        wd = World()
        for i, op in enumerate(seq):
            if not wd.enabled(op):
                dead.add(seq[:i + 1])
                break
            wd.apply(op, r)
            r.count("transitions")
            wd.verify(op, r)
            r.key(wd.key())
            if r.msgs:
                r.bad("detail", "sequence %s, at operation %d (%s)" % (list(seq), i, op))
                return r
        else:
            r.count("traces")
    return r
