"""C36: every operation gives back what it took: native blocks, references, Python memory, objects, files and threads, over scenes, operation words and refused requests."""
import contextlib
import ctypes
import gc
import io
import itertools
import os
import sys
import tempfile
import threading
import tracemalloc

import numpy as np

import c35
from c35 import TASKS, Shared
from deodr import differentiable_renderer as dr
from deodr import differentiable_renderer_cython as ext
from deodr.meshlab_io import export_meshlab
from deodr.obj import read_obj
from deodr.triangulated_mesh import ColoredTriMesh
from dlib import hashed
from runner import R
from s3d import Spec
from scenes import ALLFLAGS, DEPTHS, SHAPES, fan, multi

ID = "C36"
LEVEL = "model_checking"
VARIANT = "count"
RULE = ("native: all pairs of triangle shapes, fans and refused inputs x all 32 flag settings x texturing x edge masks x sigma x the operations {render, render_backward, residual render, residual backward, compare-and-backward in both modes}, and all words of three operations, "
        "with every allocation of the extension counted: no block may be live after an operation, accepted or refused, and references to arguments must not pile up; "
        "Python: every task (scenes, textures, depth, deferred, fitters, meshes, PyTorch, OBJ and MeshLab files, malformed files, refused requests) and all pairs of tasks repeated, and all pairs of operations on one long-lived scene repeated, with other contents every time: the number of package objects, Python memory, open files and threads must not grow with every repetition; "
        "distinct = distinct (operation, outcome) per scene family")
ASSUME = ["native allocations are those made by the extension through malloc, calloc, realloc and operator new", "growth of Python memory is judged after three repetitions, when at least 2500 bytes are added at every later one (images of 40 x 48 pixels, meshes of 130 vertices)"]
c35.W, c35.H = 48, 40  # images and meshes whose retention stands out
GROWTH = dict(memory=2500)  # bytes per repetition
LIB = ctypes.CDLL(ext.__file__)
CASE_LIMIT = 600


def live():
    return ctypes.c_long.in_dll(LIB, "vf_live").value


def total():
    return ctypes.c_long.in_dll(LIB, "vf_total").value


def prepare():
    t = total()
    s = multi([SHAPES[0]], [DEPTHS[0]], 0, {})
    s.render(1.0)
    if total() == t and not os.environ.get("VERIF_NOALLOC"):
        print("note: rendering makes no native allocation")


class Box:
    """Operations on a 2D scene; each returns nothing and may be refused."""

    def __init__(self, s, sigma):
        self.s, self.sigma = s, sigma
        n = (s.height, s.width)
        self.obs = hashed(n[0] * n[1] * s.nb_colors, 5).reshape(n + (s.nb_colors,))
        self.adj = self.obs - 0.25
        self.eadj = self.obs[..., 0] + 0.5
        self.args = [getattr(s, k) for k in ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture")] + [self.obs, self.adj, self.eadj]

    def op(self, o):
        s = self.s
        if o == "render":
            s.render(self.sigma)
        elif o == "back":
            s.render_backward(self.adj)
        elif o == "error":
            s.render_error(self.obs, self.sigma)
        elif o == "eback":
            s.render_error_backward(self.eadj)
        elif o == "cmp":
            s.render_compare_and_backward(sigma=self.sigma, obs=self.obs)
        elif o == "cmperr":
            s.render_compare_and_backward(sigma=self.sigma, antialiase_error=True, obs=self.obs)
        elif o == "clear":
            s.clear_gradients()
        elif o == "wrongadj":
            s.render_backward(self.adj[:-1])
        elif o == "wrongobs":
            s.render_error(self.obs[:, :-1], self.sigma)
        elif o == "badface":
            img, z = np.zeros(self.obs.shape), np.zeros(self.obs.shape[:2])
            keep = s.faces
            s.faces = keep + 100
            try:
                ext.renderScene(s, self.sigma, img, z, check_valid=False)
            finally:
                s.faces = keep
        elif o == "nan":
            keep = s.ij
            s.ij = keep * np.nan
            try:
                s.render(self.sigma)
            finally:
                s.ij = keep


OPS = ("render", "back", "error", "eback", "cmp", "cmperr", "clear", "wrongadj", "wrongobs", "badface", "nan")


def refs(args):
    return [sys.getrefcount(a) for a in args]


def run_word(r, make, sigma, word, text, family):
    s = make()
    b = Box(s, sigma)
    before = refs(b.args)
    gc.disable()
    try:
        for i, o in enumerate(word):
            base = live()
            refused = ""
            try:
                b.op(o)
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except BaseException as e:
                refused = type(e).__name__
                e.__traceback__ = None
                del e
            r.n += 1
            r.count("operations")
            if refused:
                r.count("refused")
            r.key(family, o, refused, word[:i])
            if live() != base:
                r.bad("native leak", "%s: %d native blocks still allocated after %s (%s), operations %s" % (text, live() - base, o, refused or "accepted", word[:i + 1]))
            after = refs(b.args)
            grown = [k for k, (x, y) in enumerate(zip(before, after)) if y > x + 2]  # a scene may remember what it was given last
            if grown:
                r.bad("references", "%s: references kept to arguments %s after %s (%s), operations %s" % (text, grown, o, refused or "accepted", word[:i + 1]))
            if r.msgs:
                return
    finally:
        gc.enable()


# ----- Python level

def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            f()
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            e.__traceback__ = None


def objects():
    return sum(1 for o in gc.get_objects() if type(o).__module__.split(".")[0] == "deodr")


def measure():
    gc.collect()
    return dict(objects=objects(), memory=tracemalloc.get_traced_memory()[0], native=live(), files=len(os.listdir("/proc/self/fd")), threads=threading.active_count())


def repeated(r, f, text, times=8):
    """Growth at each repetition after the third one."""
    seen = []
    gc.collect()
    gc.freeze()  # what exists already is neither scanned nor counted
    tracemalloc.start()
    try:
        for _ in range(times):
            quiet(f)
            r.n += 1
            seen.append(measure())
    finally:
        tracemalloc.stop()
        gc.unfreeze()
    for k in seen[0]:
        v = [m[k] for m in seen[3:]]
        if all(b - a >= GROWTH.get(k, 1) for a, b in zip(v, v[1:])):
            r.bad("grows: " + k, "%s: %s grows at every repetition: %s" % (text, k, v))
    return seen


def tmp():
    return tempfile.TemporaryDirectory(prefix="deodr-res-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)


def t_badobj(sh, v):
    with tmp() as d:
        p = os.path.join(d, "a.obj")
        with open(p, "w") as f:
            f.write(("v 0 0 0\nv 1 0\nf 1 2 3\n", "v 0 0 0\nf 1 2 x\n")[v])
        read_obj(p)


def t_meshlab(sh, v):
    with tmp() as d:
        m = ColoredTriMesh(sh.F, sh.V, colors=sh.colors)
        export_meshlab(os.path.join(d, "a.mlp"), m, [sh.camera] * (v + 1), [np.zeros((40, 48, 3))] * (v + 1))


def t_badmesh(sh, v):
    ColoredTriMesh(sh.F[:, ::-1] if v else sh.F + 7, sh.V, colors=sh.colors)


def t_refused(sh, v):
    s = dr.Scene3D(sigma=1.0, perspective_correct=True)
    s.set_mesh(ColoredTriMesh(sh.F, sh.V, colors=sh.colors))
    s.set_light(sh.light, 0.25)
    s.set_background_color(sh.bg)
    if v:
        s.render(sh.camera)
        s.clear_gradients()
        s.render_backward(sh.adj)
    else:
        s.render_deferred(sh.camera)


def t_subdivide(sh, v):
    ColoredTriMesh(sh.F, sh.V, colors=sh.colors).subdivise(1 + v).vertex_normals


def t_trimesh(sh, v):
    m = ColoredTriMesh(sh.F, sh.V, colors=sh.colors)
    ColoredTriMesh.from_trimesh(m.to_trimesh())


ALL = dict(TASKS, badobj=t_badobj, meshlab=t_meshlab, badmesh=t_badmesh, refused=t_refused, subdivide=t_subdivide, trimesh=t_trimesh)
LONG = ("render", "render1", "depth", "deferred", "back", "vertices", "colors", "light", "bg", "mesh", "adjacency", "silhouette", "normals", "volume", "clear", "sigma")


class Long:
    """One scene used again and again."""

    def __init__(self, kind):
        self.sp = [Spec(mesh="octa", kind=kind, light=(0.25, -0.5, -0.75), size=(40, 36), deform=d, sigma=0.0, pose=((1, 2, 3, 4), (-3, 1, 0.5, 2))[d]) for d in range(2)]
        self.sc = self.sp[0].make_scene()
        self.cam = [s.camera() for s in self.sp]
        self.i = self.n = 0

    def op(self, o):
        self.i ^= 1
        self.n += 1
        f = 1 + self.n / 1024  # other content every time
        i, sc, sp = self.i, self.sc, self.sp[self.i]
        if o in ("render", "render1"):
            self.cam[i].intrinsic = self.cam[i].intrinsic * [[f], [f], [1]]
            sc.render(self.cam[o == "render1"], return_z_buffer=o == "render1")
        elif o == "depth":
            keep = sc.background_color
            sc.set_background_color(np.array([0.5]))
            sc.render_depth(self.cam[i])
            sc.set_background_color(keep)
        elif o == "deferred":
            sc.render_deferred(self.cam[i])
        elif o == "back":
            img = sc.render(self.cam[i])
            sc.clear_gradients()
            sc.render_backward(hashed(img.size, i + 2).reshape(img.shape))
        elif o == "vertices":
            sc.mesh.set_vertices(sp.V * f)
        elif o == "colors":
            if sp.colors is not None:
                sc.mesh.set_vertices_colors(sp.colors * f)
        elif o == "light":
            sc.set_light(np.array([0.25 + f, -0.5, -0.75]), 0.25)
        elif o == "bg":
            (sc.set_background_image(np.zeros((36, 40, sp.nc)) + f) if i else sc.set_background_color(np.zeros(sp.nc) + f))
        elif o == "mesh":
            sc.set_mesh(sp.make_mesh())
        elif o == "adjacency":
            sc.mesh.compute_adjacencies()
        elif o == "silhouette":
            sc.mesh.edge_on_silhouette(self.cam[i].project_points(sc.mesh.vertices)[0])
        elif o == "normals":
            sc.mesh.vertex_normals, sc.mesh.face_normals
        elif o == "volume":
            sc.mesh.compute_volume()
        elif o == "clear":
            sc.clear_gradients()
        elif o == "sigma":
            sc.sigma = 1.0 - sc.sigma


def cases(tier):
    for i, j in itertools.product(range(len(SHAPES)), repeat=2):
        yield dict(kind="pair", i=i, j=j)
    for n in (3, 5):
        for i in range(4):
            yield dict(kind="fan", n=n, i=i)
    for a, b in itertools.product(range(len(OPS)), repeat=2):
        yield dict(kind="word", first=[a, b], tier=tier)
    for a in ALL:
        yield dict(kind="task", tasks=[a])
        for b in ALL:
            if tier == "thorough" or a < b:
                yield dict(kind="task", tasks=[a, b])
    for kind in ("c3", "t3"):
        for a in LONG:
            yield dict(kind="long", mesh=kind, first=a)


BASIC = ("render", "back", "error", "eback", "cmp", "cmperr") * 2


def check(case):
    r = R()
    r.n = 0
    k = case["kind"]
    if k == "pair":
        sh = [SHAPES[case["i"]], SHAPES[case["j"]]]
        for fi, fl in enumerate(ALLFLAGS):
            for t in range(4):
                i = fi + 5 * t + case["i"] + 3 * case["j"]
                sigma = (0.0, 1.0, 1.75)[(fi + t) % 3]
                em = (63, 0, 37, 26)[(i // 2) % 4]
                run_word(r, lambda: multi(sh, [DEPTHS[i % 4], DEPTHS[(i // 4 + 1) % 4]], i, fl, textured=t, edgemask=em), sigma, BASIC,
                         "%s flags %s textured %d edges %d sigma %s" % (case, fl, t, em, sigma), "pair")
                if r.msgs:
                    return r
    elif k == "fan":
        for fl, sigma, flat in itertools.product(ALLFLAGS, (0.0, 1.0), (False, True)):
            run_word(r, lambda: fan(case["n"], case["i"], fl, flat=flat), sigma, BASIC, "%s flags %s sigma %s" % (case, fl, sigma), "fan")
            if r.msgs:
                return r
    elif k == "word":
        for c in range(len(OPS)):
            for fi in range(32):
                fl = ALLFLAGS[fi]
                word = tuple(OPS[x] for x in case["first"] + [c])
                run_word(r, lambda: multi([SHAPES[1], SHAPES[4]], [DEPTHS[0], DEPTHS[1]], fi, fl, textured=fi % 4), (0.0, 1.0)[c % 2], word, "words flags %s" % fl, "word")
                if r.msgs:
                    return r
    elif k == "task":
        count = itertools.count(1)

        def f():
            sh = Shared(3, next(count))  # other content every time
            for v, t in enumerate(case["tasks"]):
                ALL[t](sh, v)
            if len(case["tasks"]) == 1:
                quiet(lambda: ALL[case["tasks"][0]](sh, 1))
        seen = repeated(r, f, "tasks %s" % case["tasks"])
        r.key("task", case["tasks"], seen[-1]["objects"] - seen[0]["objects"])
    else:
        for b in LONG:
            x = Long(case["mesh"])

            def g():
                quiet(lambda: x.op(case["first"]))
                quiet(lambda: x.op(b))
            for _ in range(2):
                g()
            repeated(r, lambda: (g(), g()), "operations %s, %s on one scene (%s)" % (case["first"], b, case["mesh"]))
            r.key("long", case["mesh"], case["first"], b)
            if r.msgs:
                return r
    return r
