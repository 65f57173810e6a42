"""C34: every sequence of viewer commands up to a depth, each displayed frame compared with a fresh scene under the modelled settings."""
import contextlib
import io
import itertools
import os
import pickle
import shutil
import tempfile

import cv2
import matplotlib
import numpy as np

matplotlib.use("Agg")
import c30  # noqa: E402
from deodr import ColoredTriMesh  # noqa: E402
from deodr.differentiable_renderer import Camera, Scene3D  # noqa: E402
from deodr.examples import mesh_viewer as mv  # noqa: E402
from runner import R  # noqa: E402

ID = "C34"
LEVEL = "model_checking"
RULE = ("all words of length up to 3 (thorough: 4) over {keys r p l a t s d and an unbound key, three drags, two window sizes, recentring, new light, new background, new mesh} from 4 constructor settings and 2 meshes (textured with seams, vertex colours); "
        "window functions, video writer and OpenGL renderer are recording stand-ins; after each word the displayed frame, the frames recorded, the files saved and the requests to the OpenGL renderer equal those of a fresh scene with the modelled settings (or, where recorded findings apply, those of a model of exactly these defects); state = (settings, camera, recording)")
ASSUME = ["windows of at least one pixel", "frames differ by at most one 8-bit level from the rendered image"]
TOL = 1.01
QUIRKS = ["use_light", "use_antialiasing", "one-renderer", "light-moderngl", "wrap", "recenter-mouse", "pan-centre", "resized-recording"]  # recorded findings


def mk_mesh(kind):
    V = np.array([[0.0, 0, 0], [1.5, 0.25, 0], [0, 1, 0.25], [0.25, 0.25, 1.25]])
    F = np.array([[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]], dtype=np.uint32)
    if kind == "big":
        V, kind = V * 2 - 0.5, "t"
    if kind == "c":
        return ColoredTriMesh(F, V, colors=np.array([[1.0, 0, 0], [0, 1, 0.5], [0.25, 0.5, 1], [1, 1, 0.25]]))
    t = np.linspace(0, 1, 4 * 5 * 3).reshape(4, 5, 3)[:, :, ::-1] * np.array([1, 0.5, 0.75])
    t.setflags(write=False)
    uv = np.array([[0.0, 0], [4, 0], [0, 3], [4, 3], [2, 1.5]])
    return ColoredTriMesh(F, V, faces_uv=np.array([[0, 1, 2], [1, 3, 4], [4, 2, 0], [2, 3, 0]], dtype=np.uint32), uv=uv, texture=t)


SETTINGS = [
    dict(),
    dict(use_light=False, light_directional=(0.3, 0.2, -0.9), light_ambient=0.75, background_color=(0.2, 0.4, 0.6)),
    dict(use_antialiasing=False, light_directional=(0, 0, -1), light_ambient=0, background_color=(0, 1, 0)),
    dict(use_moderngl=True, horizontal_fov=40, light_directional=(0.5, 0.5, -0.25), light_ambient=0.25),
]
SIZES = [(17, 20), (26, 13)]
OPS = ["key " + k for k in "rpltasdz"] + ["drag L", "drag R shift", "drag L ctrl", "size 0", "size 1", "recenter", "light", "background", "mesh"]
LIGHT2 = ((0.4, -0.3, -0.8), 0.6)
BG2 = (0.75, 0.5, 0.125)


def cases(tier):
    depth = 4 if tier == "thorough" else 3
    for kind in "tc":
        for s in range(len(SETTINGS)):
            if kind == "c" and SETTINGS[s].get("use_moderngl"):
                continue
            for a in range(len(OPS)):
                if kind == "c" and OPS[a] in ("key r", "mesh"):
                    continue
                yield dict(kind=kind, settings=s, first=a, depth=depth)


class Win:
    """Stand-in for the window system."""

    def __init__(self):
        self.size = None
        self.mouse = None
        self.key = -1
        self.shown = None

    def install(self):
        cv2.namedWindow = lambda *a: None
        cv2.resizeWindow = self.resize
        cv2.setMouseCallback = self.set_mouse
        cv2.getWindowImageRect = lambda name: (0, 0) + self.size
        cv2.getWindowProperty = lambda *a: 0
        cv2.imshow = self.show
        cv2.waitKey = self.wait
        cv2.VideoWriter = FakeVideo

    def resize(self, name, w, h):
        self.size = (int(w), int(h))

    def set_mouse(self, name, f, param=None):
        self.mouse = f

    def show(self, name, image):
        self.shown = np.array(image)

    def wait(self, ms):
        k, self.key = self.key, -1
        return k


class FakeVideo:
    all = []

    def __init__(self, filename, fourcc, fps, size, *a):
        self.filename, self.size, self.frames, self.open, self.lost = filename, tuple(size), [], True, 0
        open(filename, "w").close()
        FakeVideo.all.append(self)

    def write(self, frame):
        if not self.open or frame.dtype != np.uint8 or frame.shape != (self.size[1], self.size[0], 3):
            self.lost += 1  # as OpenCV does
            return
        self.frames.append(np.array(frame))

    def release(self):
        self.open = False

    def isOpened(self):
        return self.open


class FakeGL:
    """Same interface and requirements as OffscreenRenderer, renders by a scene of its own."""

    def __init__(self):
        self.scene = Scene3D(sigma=0, perspective_correct=True)

    def set_scene(self, s):
        assert s.mesh is not None and s.light_ambient is not None and s.background_color is not None and s.light_directional is not None
        self.bg_color = np.array(s.background_color)
        self.integer_pixel_centers = s.integer_pixel_centers
        self.set_light(s.light_directional, s.light_ambient)
        self.set_mesh(s.mesh)

    def set_light(self, light_directional, light_ambient):
        assert light_directional.shape == (3,)
        self.light = tuple(float(x) for x in light_directional), float(light_ambient)

    def set_mesh(self, mesh):
        assert mesh.uv is not None and mesh.texture is not None and not mesh.texture.flags["WRITEABLE"]
        assert mesh.vertex_normals is not None
        self.mesh = mesh

    def render(self, camera):
        return np.clip(expected(self.mesh, self.light, self.bg_color, 0, True, camera) * 255, 0, 255).astype(np.uint8)


_memo = {}


def expected(mesh, light, bg, sigma, persp, camera):
    key = (mesh.vertices.tobytes(), mesh.texture is None, repr(light), repr(tuple(float(x) for x in bg)), sigma, persp, np.asarray(camera.extrinsic, float).tobytes(), np.asarray(camera.intrinsic, float).tobytes(), camera.width, camera.height)
    if key not in _memo:
        if len(_memo) > 20000:
            _memo.clear()
        s = Scene3D(sigma=sigma, perspective_correct=persp)
        m = mk_mesh("t" if mesh.texture is not None else "c")
        if m.vertices.tobytes() != mesh.vertices.tobytes():
            m = mk_mesh("big")
        s.set_mesh(m)
        s.set_light(np.array(light[0], float), float(light[1]))
        s.set_background_color(np.array(bg, float))
        _memo[key] = s.render(Camera(extrinsic=np.array(camera.extrinsic, float), intrinsic=np.array(camera.intrinsic, float), width=camera.width, height=camera.height, distortion=np.zeros(5)))
    return _memo[key]


class Cam:
    pass


class Model:
    """The documented behaviour."""
    asis = False

    def __init__(self, kind, s):
        self.quirks = set()
        self.gl = s.get("use_moderngl", False)
        self.light_on = s.get("use_light", True)
        self.aa = s.get("use_antialiasing", True)
        self.persp = False
        self.light = (tuple(s.get("light_directional", (0, 0, -0.5))), s.get("light_ambient", 0.5))
        self.bg = s.get("background_color", (1, 1, 1))
        self.fov = s.get("horizontal_fov", 60)
        self.kind = kind
        self.size = (20, 15)
        self.recording = False
        self.videos = []
        self.center = self.radius()[0]
        self.recenter()
        self.mouse = self.it

    def radius(self):
        V = mk_mesh(self.kind).vertices
        lo, hi = V.min(axis=0), V.max(axis=0)
        return 0.5 * (lo + hi), (hi - lo).max()

    def recenter(self):
        c, rad = self.center, self.radius()[1]
        E = np.array([[1.0, 0, 0, -c[0]], [0, -1, 0, c[1]], [0, 0, -1, c[2] + 3 * rad]])
        f = 0.5 * self.size[0] / np.tan(np.radians(self.fov) / 2)
        K = np.array([[f, 0, self.size[0] / 2], [0, f, self.size[1] / 2], [0, 0, 1]])

        class Speeds:
            rotation_speed, z_translation_speed, xy_translation_speed = 0.003, 0.01 * rad, 3e-4

        self.it = c30.Model("object_centered_trackball", E, K, c.copy(), Speeds)
        self.mouse = self.it

    def resize(self, size):
        if size != self.size:
            k = size[0] / self.size[0]
            self.it.K = np.array([[self.it.K[0, 0] * k, 0, size[0] / 2], [0, self.it.K[1, 1] * k, size[1] / 2], [0, 0, 1]])
            self.size = size

    def key(self, k):
        if k == "r":
            self.gl = not self.gl
        elif k == "l":
            self.light_on = not self.light_on
        elif k == "a" and not self.gl:
            self.aa = not self.aa
        elif k == "p" and not self.gl:
            self.persp = not self.persp
        elif k == "t":
            self.it.event(("mode",), 0)
        elif k == "s":
            self.recording = not self.recording
            if self.recording:
                self.videos.append([])

    def drag(self, op, flags):
        self.mouse.event(op, flags)

    def set(self, what, value):
        setattr(self, what, value)
        if what == "kind":
            self.center = self.radius()[0]

    def record(self):
        self.videos[-1].append(self.image())

    def settings(self):
        return self.kind, self.light if self.light_on else ((0, 0, 0), 1.0), self.bg, 1.0 if self.aa else 0

    def image(self):
        c = Cam()
        c.extrinsic, c.intrinsic, (c.width, c.height) = self.it.E, self.it.K, self.size
        kind, light, bg, sigma = self.settings()
        im = expected(mk_mesh(kind), light, bg, 0 if self.gl else sigma, self.gl or self.persp, c) * 255
        if not self.asis or self.gl:
            im = np.clip(im, 0, 255)
        elif im.max() > 255:
            self.quirks.add("wrap")
        return im[:, :, ::-1]


class AsIs(Model):
    """The same with the recorded findings."""
    asis = True

    def __init__(self, kind, s):
        Model.__init__(self, kind, s)
        self.scene = [self.kind, self.light, self.bg, 1.0]
        self.gpu = list(self.scene) if self.gl else None
        if not self.light_on:
            self.quirks.add("use_light")
        if not self.aa:
            self.quirks.add("use_antialiasing")

    def settings(self):
        return self.gpu[:3] + [0] if self.gl else self.scene

    def recenter(self):
        old = getattr(self, "mouse", None)
        Model.recenter(self)
        if old is not None:
            self.mouse = old
            self.quirks.add("recenter-mouse")

    def key(self, k):
        if k == "l":
            if self.gl and self.light_on:
                self.quirks.add("light-moderngl")
                self.dead = True
            light = ((0, 0, 0), 1.0) if self.light_on else self.light
            if self.gl:
                self.gpu[1] = light
                self.quirks.add("one-renderer")
            else:
                self.scene[1] = light
                if self.gpu:
                    self.quirks.add("one-renderer")
        Model.key(self, k)
        if k == "a" and not self.gl:
            self.scene[3] = 1.0 if self.aa else 0.0
        if k == "r" and self.gl and self.gpu is None:
            self.gpu = list(self.scene)
        if k == "s" and self.recording:
            self.video_size = self.size

    def drag(self, op, flags):
        c = self.mouse.c.copy()
        Model.drag(self, op, flags)
        if not np.array_equal(c, self.mouse.c):  # the viewer and all its interactors share the array
            same = [i for i in (self.it,) if i is not self.mouse and np.array_equal(i.c, c)]
            for i in same:
                i.c = self.mouse.c.copy()
            if np.array_equal(self.center, c):
                self.center = self.mouse.c.copy()
            self.quirks.add("pan-centre")

    def set(self, what, value):
        Model.set(self, what, value)
        self.scene[dict(kind=0, light=1, bg=2)[what]] = value
        if what == "light" and not self.light_on:
            self.quirks.add("use_light")
        if self.gpu:
            self.quirks.add("one-renderer")

    def record(self):
        if self.size == self.video_size:
            Model.record(self)
        else:
            self.quirks.add("resized-recording")


def close(got, m, want):
    """Largest difference per pixel, modulo 256 where the recorded wrapping applies."""
    d = np.abs(got.astype(float) - want)
    if m.asis:
        d = np.minimum(d % 256, -d % 256)
    return d


class World:
    def __init__(self, kind, s):
        FakeVideo.all = []
        self.win = Win()
        self.win.install()
        mv.OffscreenRenderer = FakeGL
        self.m = Model(kind, SETTINGS[s])
        self.a = AsIs(kind, SETTINGS[s])
        self.both = (self.m, self.a)
        self.v = mv.Viewer(mk_mesh(kind), display_texture_map=False, display_fps=False, width=20, height=15, title="t", **SETTINGS[s])
        self.v.start(print_help=False, loop=False)

    def frame(self):
        """One iteration of the loop, with the models."""
        pre = self.m.recording
        for m in self.both:
            m.resize(self.win.size)
        self.v.refresh()
        if pre:
            for m in self.both:
                m.record()

    def apply(self, op):
        v = self.v
        w = op.split()
        if w[0] == "key":
            self.win.key = ord(w[1])
            self.a.dead = w[1] == "l" and self.a.gl and self.a.light_on
            self.frame()
            for m in self.both:
                m.key(w[1])
        elif w[0] == "drag":
            mod = dict(shift=c30.SHIFT, ctrl=c30.CTRL).get(w[2] if len(w) > 2 else "", 0)
            f = c30.BIT[w[1]] | mod
            self.win.mouse(c30.CODE["down", w[1]], *c30.PT[0], f, None)
            self.win.mouse(cv2.EVENT_MOUSEMOVE, *c30.PT[1], f, None)
            self.win.mouse(c30.CODE["up", w[1]], *c30.PT[1], mod, None)
            for m in self.both:
                m.drag(("down", w[1], 0), f)
                m.drag(("move", mod, 1), f)
                m.drag(("up", w[1], 1), mod)
        elif w[0] == "size":
            self.win.size = SIZES[int(w[1])]
        elif w[0] == "recenter":
            v.recenter_camera()
            for m in self.both:
                m.recenter()
        elif w[0] == "light":
            v.set_light(*LIGHT2)
            for m in self.both:
                m.set("light", LIGHT2)
        elif w[0] == "background":
            v.set_background_color(BG2)
            for m in self.both:
                m.set("bg", BG2)
        elif w[0] == "mesh":
            v.set_mesh(mk_mesh("big"))
            for m in self.both:
                m.set("kind", "big")
        self.frame()


def difference(wd, m, last):
    """None, or (sig, text) for the first difference from a model."""
    want = m.image()
    got = wd.win.shown
    if got is None or got.shape != want.shape or got.dtype != np.uint8:
        return "shape", "displayed frame %s, expected shape %s" % (None if got is None else (got.dtype, got.shape), want.shape)
    d = close(got, m, want).max(axis=2)
    if m.recording:
        y, x = np.mgrid[:d.shape[0], :d.shape[1]]
        d[(x - d.shape[1] + 20) ** 2 + (y - d.shape[0] + 20) ** 2 <= 100] = 0
    if d.max() > TOL:
        y, x = np.unravel_index(d.argmax(), d.shape)
        return "frame", "displayed pixel (%d,%d) is %s, expected %s (settings %s)" % (x, y, got[y, x], want[y, x], state(m)[:6])
    if len(FakeVideo.all) != len(m.videos):
        return "videos", "%d videos, expected %d" % (len(FakeVideo.all), len(m.videos))
    for i, (f, w) in enumerate(zip(FakeVideo.all, m.videos)):
        if (f.lost and not m.asis) or len(f.frames) != len(w):
            return "video frames", "video %d has %d frames (%d refused), expected %d" % (i, len(f.frames), f.lost, len(w))
        if f.open != (m.recording and i == len(m.videos) - 1):
            return "video open", "video %d is %s" % (i, "open" if f.open else "closed")
        for a, b in zip(f.frames, w):
            if a.shape == b.shape and close(a, m, b).max() > TOL:
                return "video content", "a frame of video %d is not the displayed image" % i
    if len({f.filename for f in FakeVideo.all}) != len(FakeVideo.all):
        return "video name", "a video was overwritten"
    if last == "key d":
        with open("scene.pickle", "rb") as fs, open("camera.pickle", "rb") as fc:
            s, c = pickle.load(fs), pickle.load(fc)
        if not m.gl:
            im = s.render(c)[:, :, ::-1] * 255
            if im.shape != want.shape or np.abs(np.clip(im, 0, 255) - np.clip(want, 0, 255)).max() > TOL:
                return "pickle", "the saved scene and camera do not give the displayed image"
    return None


def quirks(r, wd, text):
    for q in sorted(wd.a.quirks):
        if q not in [m[0] for m in r.msgs]:
            r.bad(q, text)


def compare(r, wd, text, last):
    diff = difference(wd, wd.m, last)
    if diff is None:
        return
    if difference(wd, wd.a, last) is None and wd.a.quirks:
        quirks(r, wd, "%s: %s" % (text, diff[1]))
    else:
        r.bad(diff[0], "%s: %s" % (text, diff[1]))


def state(m):
    return (m.gl, m.light_on, m.aa, m.persp, m.light, m.bg, m.kind, m.size, m.recording, len(m.videos), m.it.mode, hash(np.round(np.concatenate([m.it.E.ravel(), m.it.K.ravel(), m.it.c]), 9).tobytes()))


def words(kind, first, depth):
    ops = [o for o in OPS if kind != "c" or o not in ("key r", "mesh")]
    for n in range(depth):
        for rest in itertools.product(ops, repeat=n):
            yield (OPS[first],) + rest


def check(case):
    r = R()
    r.n = 0
    seen = set()
    old = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="c34")
    try:
        os.chdir(tmp)
        for word in words(case["kind"], case["first"], case["depth"]):
            text = "%s mesh, settings %s, commands %s" % (case["kind"], SETTINGS[case["settings"]], list(word))
            for f in os.listdir("."):
                os.remove(os.path.join(tmp, f))
            with contextlib.redirect_stdout(io.StringIO()):
                wd = None
                try:
                    wd = World(case["kind"], case["settings"])
                    for op in word:
                        wd.apply(op)
                        r.count("transitions")
                    compare(r, wd, text, word[-1])
                except BaseException as e:
                    if isinstance(e, (KeyboardInterrupt, SystemExit)):
                        raise
                    if isinstance(e, AssertionError) and wd is not None and getattr(wd.a, "dead", False):
                        wd.a.quirks = {"light-moderngl"}
                        quirks(r, wd, "%s: %r" % (text, e))
                        r.count("traces")
                        r.n += 1
                        continue
                    r.bad("exception:" + type(e).__name__, "%s: %r" % (text, e))
                    break
            r.n += 1
            r.count("traces")
            if sum(m[0] not in QUIRKS for m in r.msgs) > 3:
                break
            k = state(wd.m)
            if k not in seen:
                seen.add(k)
                r.count("states")
                r.key(case["kind"], k)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp)
    return r
