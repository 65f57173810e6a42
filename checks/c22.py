"""C22: every sequence of content changes, renders and backward passes of a Scene3D, compared with freshly built scenes of the same content."""
import copy

import numpy as np

from dlib import close, close_scaled, dr, hashed, vb
from runner import R
from s3d import Spec

ID = "C22"
LEVEL = "model_checking"
RULE = ("tree of all operation sequences up to a depth (quick 4, thorough 6) over {set vertices A/B from a new array or by overwriting the array given before, set colours A/B, light none/1/2, background image/colour, sigma 0/1, switch between two meshes, "
        "render from two cameras with and without culling, depth render, deferred render, colour/depth backward with two adjoints, clear gradients, another scene using the same mesh}; model state = content + accumulated adjoint; "
        "each observation is compared with a scene built from scratch; arrays handed in and images handed out must not change")
ASSUME = ["a backward pass follows the render it belongs to, without changes of content in between (other scenes may be used in between)", "backward passes accumulate until the gradients are cleared or the scene is rendered again"]

CAMS = [dict(pose=(1, 2, 3, 4)), dict(pose=(-3, 1, 0.5, 2))]
LIGHT = {"0": None, "1": (0.25, -0.5, -0.75), "2": (-1.0, 1.5, 0.5)}
MESH = {"m": ("tetra", "c3"), "n": ("octa", "t3")}
OPS = ("V", "Vin", "C", "L0", "L1", "L2", "bg", "sigma", "mesh", "render0", "render1", "nocull", "depth", "deferred", "back0", "back1", "dback", "clear", "other", "otherback")
CHANGES = OPS[:9]


def cases(tier):
    depth = 6 if tier == "thorough" else 4
    for start in (0, 1):
        for a in range(len(OPS)):
            for b in range(len(OPS)):
                for sub in range(1 if tier == "quick" else len(OPS)):
                    yield dict(start=start, first=[a, b] + ([sub] if tier != "quick" else []), depth=depth)


class State:
    """Content of the model."""

    def __init__(self, start):
        self.mesh = "m"
        self.V = {"m": 0, "n": 0}
        self.C = {"m": 0, "n": 0}
        self.light = "1"
        self.bg = "color"
        self.sigma = 1.0 if start == 0 else 0.0
        self.last = None  # (kind, camera) of the render a backward pass belongs to
        self.acc = ()

    def copy(self):
        o = copy.copy(self)
        o.V, o.C = dict(self.V), dict(self.C)
        return o

    def content(self):
        return (self.mesh, self.V[self.mesh], self.C[self.mesh], self.light, self.bg, self.sigma)


def spec(content, cam):
    mesh, v, c, light, bg, sigma = content
    name, kind = MESH[mesh]
    sp = Spec(mesh=name, kind=kind, light=LIGHT[light], ambient=0.25 + 0.125 * int(light), bg=bg, sigma=sigma, deform=2 * v, colset=3 * c, size=(7, 6), **CAMS[cam])
    return sp



_fresh = {}
ADJ = [hashed(126, 3).reshape(6, 7, 3) - 0.25, hashed(126, 8).reshape(6, 7, 3) - 0.5]
DADJ = ADJ[0][:, :, :1].copy()


def depth_background(sc, content):
    """Depth rendering wants a background with one channel."""
    if content[4] == "image":
        sc.background_image = spec(content, 0).bgval[:, :, :1].copy()
    else:
        sc.background_color = np.array([0.5])


def grads(sc, mode):
    out = [vb(sc.mesh).copy()]
    if mode == "color":
        out += [np.array(sc.light_ambient_b)]
        if sc.light_directional is not None:
            out.append(sc.light_directional_b.copy())
        out.append(sc.scene_2d.texture_b.copy() if sc.mesh.uv is not None else sc.mesh.vertices_colors_b.copy())
    return out


def fresh(content, op, cam=0, adj=()):
    """What a scene built from scratch gives."""
    key = (content, op, cam, adj)
    if key not in _fresh:
        sp = spec(content, cam)
        sc = sp.make_scene()
        c = sp.camera()
        if op == "render":
            _fresh[key] = sc.render(c, return_z_buffer=True)
        elif op == "nocull":
            _fresh[key] = (sc.render(c, backface_culling=False),)
        elif op == "depth":
            depth_background(sc, content)
            _fresh[key] = (sc.render_depth(c, depth_scale=0.5),)
        elif op == "deferred":
            d = sc.render_deferred(c)
            _fresh[key] = tuple(d[k] for k in sorted(d))
        elif op == "back":
            total = None
            for a in adj:
                sc = sp.make_scene()
                sc.render(c)
                sc.render_backward(ADJ[a].copy())
                g = grads(sc, "color")
                total = g if total is None else [x + y for x, y in zip(total, g)]
            _fresh[key] = tuple(total)
        elif op == "dback":
            sc = sp.make_scene()
            depth_background(sc, content)
            sc.render_depth(c, depth_scale=0.5)
            sc.render_depth_backward(DADJ.copy())
            _fresh[key] = tuple(np.array(g) * len(adj) for g in grads(sc, "depth"))
    return _fresh[key]


class World:
    """The code under test and everything handed to it or received from it."""

    def __init__(self, st):
        self.start = 0 if st.sigma else 1
        self.given = []  # (what, array, copy)
        self.kept = {}  # the array of vertices given last, for each mesh
        self.meshes = {}
        for m in MESH:
            self.meshes[m] = spec((m, 0, 0, st.light, st.bg, st.sigma), 0).make_mesh()
        sp = spec(st.content(), 0)
        self.sc = dr.Scene3D(sigma=st.sigma)
        self.sc.set_mesh(self.meshes[st.mesh])
        self.sc.set_light(np.array(sp.light), sp.ambient)
        self.sc.set_background_color(sp.bgval)
        self.other = dr.Scene3D(sigma=1)
        self.other.set_light(np.array((1.0, 0.5, -1.0)), 0.125)
        self.other.set_background_color([0.0, 0.25, 0.5])
        self.cams = [spec(st.content(), k).camera() for k in (0, 1)]
        self.cams = {m: [spec((m, 0, 0, "1", "color", 0.0), k).camera() for k in (0, 1)] for m in MESH}

    def give(self, what, a):
        a = np.array(a, dtype=np.float64)
        self.given.append((what, a, a.copy()))
        return a

    def check_given(self, r, text):
        for what, a, b in self.given:
            if not np.array_equal(a, b, equal_nan=True):
                r.bad("modified " + what, "%s: the %s was modified" % (text, what))
                return


def legal(st, op):
    if op == "deferred":
        return st.sigma == 0
    if op in ("back0", "back1"):
        return st.last is not None and st.last[0] == "render"
    if op == "dback":
        return st.last is not None and st.last[0] == "depth"
    if op == "clear":
        return st.last is not None
    return True


def same(r, got, want, text, sig):
    for i, (a, b) in enumerate(zip(got, want)):
        if not close_scaled(a, b, 1 + np.abs(np.where(np.isfinite(b), b, 0)).max(), 1e-10):
            r.bad(sig, "%s: result %d differs from that of a scene built from scratch with the same content" % (text, i))
            return
    if len(got) != len(want):
        r.bad(sig, text + ": number of results")


def step(r, w, st, op, text):
    sc = w.sc
    sc_mesh = w.meshes[st.mesh]
    m = st.mesh
    if op in CHANGES:
        st.last = None
        if op == "V":
            st.V[m] ^= 1
            w.kept[m] = w.give("vertices", spec(st.content(), 0).V)
            sc_mesh.set_vertices(w.kept[m])
        elif op == "Vin":
            st.V[m] ^= 1
            if m not in w.kept:
                w.kept[m] = spec(st.content(), 0).V.copy()
            w.kept[m][...] = spec(st.content(), 0).V
            w.given = [(what, a, a.copy() if a is w.kept[m] else b) for what, a, b in w.given]
            sc_mesh.set_vertices(w.kept[m])
        elif op == "C":
            st.C[m] ^= 1
            sp = spec(st.content(), 0)
            if sp.textured:
                sc_mesh.texture = w.give("texture", sp.texture)
            else:
                sc_mesh.set_vertices_colors(w.give("colours", sp.colors))
        elif op[0] == "L":
            st.light = op[1]
            sp = spec(st.content(), 0)
            light = None if sp.light is None else np.array(sp.light) if op[1] == "1" else w.give("light", sp.light)
            sc.set_light(light, sp.ambient)
            if op[1] == "1":
                light[...] = (3.0, -5.0, 0.5)  # lights are copied: the caller can use the array for something else
        elif op == "bg":
            st.bg = "image" if st.bg == "color" else "color"
        elif op == "sigma":
            st.sigma = 1.0 - st.sigma
            sc.sigma = st.sigma
        elif op == "mesh":
            st.mesh = "n" if m == "m" else "m"
            sc.set_mesh(w.meshes[st.mesh])
        if op == "bg" or True:
            sp = spec(st.content(), 0)
            sc.background_image = sc.background_color = None
            if st.bg == "image":
                sc.set_background_image(w.give("background image", sp.bgval))
            else:
                sc.set_background_color(w.give("background colour", sp.bgval))
        return
    cams = w.cams[m]
    if op in ("render0", "render1"):
        k = int(op[-1])
        img, z = sc.render(cams[k], return_z_buffer=True)
        same(r, (img, z), fresh(st.content(), "render", k), text, "render")
        w.given += [("returned image", img, img.copy()), ("returned z-buffer", z, z.copy())]
        st.last, st.acc = ("render", k), ()
    elif op == "nocull":
        img = sc.render(cams[0], backface_culling=False)
        same(r, (img,), fresh(st.content(), "nocull"), text, "render without culling")
        st.last = None
    elif op == "depth":
        keep = sc.background_image, sc.background_color
        depth_background(sc, st.content())
        img = sc.render_depth(cams[0], depth_scale=0.5)
        sc.background_image, sc.background_color = keep
        same(r, (img,), fresh(st.content(), "depth"), text, "depth")
        w.given.append(("returned depth image", img, img.copy()))
        st.last, st.acc = ("depth", 0), ()
    elif op == "deferred":
        d = sc.render_deferred(cams[0])
        same(r, [d[k] for k in sorted(d)], fresh(st.content(), "deferred"), text, "deferred")
        st.last = None
    elif op in ("back0", "back1"):
        a = int(op[-1])
        sc.render_backward(w.give("adjoint", ADJ[a]))
        st.acc += (a,)
        same(r, grads(sc, "color"), fresh(st.content(), "back", st.last[1], st.acc), text, "backward")
    elif op == "dback":
        sc.render_depth_backward(w.give("depth adjoint", DADJ))
        st.acc += (0,)
        same(r, grads(sc, "depth"), fresh(st.content(), "dback", 0, st.acc), text, "depth backward")
    elif op == "clear":
        sc.clear_gradients()
        st.acc = ()
    elif op in ("other", "otherback"):
        w.other.set_mesh(w.meshes[m])
        w.other.render(cams[1])
        if op == "otherback":
            w.other.render_backward(w.give("adjoint", ADJ[1]))


def duplicate(w, word):
    """A world in the same state; by repeating the history where objects cannot be copied (which is the subject of C44)."""
    try:
        return copy.deepcopy(w)
    except BaseException:
        st = State(w.start)
        w2 = World(st)
        for op in word:
            step(R(), w2, st, op, "")
        return w2


def walk(r, w, st, depth, word):
    """All continuations; observations are made in the steps."""
    if depth == 0 or r.msgs:
        return
    for o, op in enumerate(OPS):
        if not legal(st, op):
            continue
        if depth == 1 and (op in CHANGES or op in ("clear", "other")):
            continue  # nothing is observed after it
        if word and op in CHANGES and word[-1] in CHANGES and (CHANGES.index(op) < CHANGES.index(word[-1]) or op[0] == word[-1][0]):
            continue  # changes of different fields commute, repeated changes of one field are the last one
        w2, st2 = duplicate(w, word), st.copy()
        run(r, w2, st2, op, word)
        r.n += 1
        walk(r, w2, st2, depth - 1, word + [op])


def run(r, w, st, op, word):
    text = "history %s" % (word + [op])
    try:
        step(r, w, st, op, text)
    except BaseException as e:
        r.bad("exception:" + type(e).__name__, "%s: %r" % (text, e))
        return
    w.check_given(r, text)
    r.count("transitions")
    r.key(tuple(word + [op]), st.sigma)


def check(case):
    r = R()
    r.n = 0
    st = State(case["start"])
    w = World(st)
    word = []
    for o in case["first"]:
        op = OPS[o]
        if not legal(st, op):
            return r
        run(r, w, st, op, word)
        word.append(op)
        if r.msgs:
            return r
    walk(r, w, st, case["depth"] - len(word), word)
    r.count("traces", r.n)
    return r
