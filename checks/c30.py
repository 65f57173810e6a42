"""C30: every sequence of mouse events up to a depth, in lockstep with a model of the documented controls."""
import contextlib
import copy
import io
import itertools

import cv2
import matplotlib
import numpy as np

matplotlib.use("Agg")
from deodr.differentiable_renderer import Camera  # noqa: E402
from deodr.examples.mesh_viewer import Interactor  # noqa: E402
from dlib import quat_rot  # noqa: E402
from runner import R  # noqa: E402

ID = "C30"
LEVEL = "model_checking"
RULE = ("all words of length 4 (thorough: 5) over {press of each button at two positions, release of each button, moves to three positions with no modifier / CTRL / SHIFT, move without flags, double click, wheel, mode change} for each mode, with float and integer arrays and with or without an orbit centre; "
        "after every event pose, intrinsics and orbit centre equal those of the model, and the arrays given and a second interactor made from them are unchanged (or, recorded finding, hold an earlier state of the camera); all drags along up to 4 points and back restore the state; state = (buttons, last position, mode, path)")
ASSUME = ["a button is released by its own release event"]
CTRL, SHIFT = cv2.EVENT_FLAG_CTRLKEY, cv2.EVENT_FLAG_SHIFTKEY
PT = [(40, 30), (57, 21), (43, 70)]
OPS = [("down", b, p) for b in "LRM" for p in (0, 1)] + [("up", b, 2) for b in "LRM"] + [("move", m, p) for m in (0, CTRL, SHIFT) for p in range(3)] + [("idle", 0, 1), ("dbl", "L", 1), ("wheel", 0, 0), ("mode",)]
ALIASED, INTEGER, CENTRE = KNOWN = "caller-arrays-modified", "integer-arrays", "default-orbit-centre"  # recorded findings
CODE = {("down", "L"): cv2.EVENT_LBUTTONDOWN, ("down", "R"): cv2.EVENT_RBUTTONDOWN, ("down", "M"): cv2.EVENT_MBUTTONDOWN,
        ("up", "L"): cv2.EVENT_LBUTTONUP, ("up", "R"): cv2.EVENT_RBUTTONUP, ("up", "M"): cv2.EVENT_MBUTTONUP, ("dbl", "L"): cv2.EVENT_LBUTTONDBLCLK}
BIT = dict(L=cv2.EVENT_FLAG_LBUTTON, R=cv2.EVENT_FLAG_RBUTTON, M=cv2.EVENT_FLAG_MBUTTON)
CONFIGS = [("object_centered_trackball", "float", True), ("object_centered_trackball", "int", True), ("camera_centered", "float", True), ("camera_centered", "int", True), ("camera_centered", "float", False)]


def cases(tier):
    depth = 5 if tier == "thorough" else 4
    for k in range(len(CONFIGS)):
        for a in range(len(OPS)):
            yield dict(part="words", config=k, first=a, depth=depth)
        yield dict(part="retrace", config=k, n=5 if tier == "thorough" else 4)


class World:
    def __init__(self, config):
        self.mode, dt, center = CONFIGS[config]
        self.mode_dt, self.center, self.past = dt, center, []
        if dt == "float":
            rot = quat_rot((1, 2, 3, 4))
            self.E = np.column_stack([rot, [0.25, -0.5, 6.0]])
            self.K = np.array([[50.0, 0, 32], [0, 55.0, 24], [0, 0, 1]])
            self.c = np.array([0.5, -0.25, 0.75])
        else:
            self.E = np.array([[1, 0, 0, 1], [0, -1, 0, -2], [0, 0, -1, 7]])
            self.K = np.array([[50, 0, 32], [0, 55, 24], [0, 0, 1]])
            self.c = np.array([1, 2, -1])
        self.given = [(n, a, a.copy()) for n, a in (("extrinsic", self.E), ("intrinsic", self.K), ("object_center", self.c))]
        self.cam = Camera(self.E, self.K, 48, 64)
        self.it = Interactor(self.cam, self.mode, self.c if center else None)
        self.cam2 = Camera(self.E, self.K, 48, 64)
        self.it2 = Interactor(self.cam2, self.mode, self.c if center else None)
        self.m = Model(self.mode, self.E.astype(float), self.K.astype(float), self.c.astype(float) if center else np.zeros(3), self.it)


def rodrigues(v):
    t = np.sqrt((v * v).sum())
    if t == 0:
        return np.eye(3)
    k = v / t
    X = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(t) * X + (1 - np.cos(t)) * X.dot(X)


class Model:
    """What the help says."""

    def __init__(self, mode, E, K, c, it):
        self.mode, self.E, self.K, self.c = mode, E, K, c
        self.rs, self.zs, self.xs = it.rotation_speed, it.z_translation_speed, it.xy_translation_speed
        self.down = {}
        self.last = None
        self.panning = False

    def copy(self):
        o = copy.copy(self)
        o.E, o.K, o.c, o.down = self.E.copy(), self.K.copy(), self.c.copy(), dict(self.down)
        return o

    def rotate(self, v):
        Q = rodrigues(np.array(v, float))
        if self.mode == "camera_centered":
            self.E = Q.dot(self.E)
        else:
            p = self.E[:, :3].dot(self.c) + self.E[:, 3]
            Rn = Q.dot(self.E[:, :3])
            self.E = np.column_stack([Rn, p - Rn.dot(self.c)])

    def event(self, op, flags):
        self.panning = False
        if op[0] == "mode":
            self.mode = "camera_centered" if self.mode != "camera_centered" else "object_centered_trackball"
            return
        if op[0] == "down":
            self.down[op[1]] = True
            self.last = PT[op[2]]
            self.panning = "M" in self.down or "L" in self.down and flags & CTRL
            return
        if op[0] == "up":
            self.down.pop(op[1], None)
        if op[0] == "idle" or not self.down:
            return
        x, y = PT[op[2]]
        dx, dy = x - self.last[0], y - self.last[1]
        ctrl, shift = flags & CTRL, flags & SHIFT
        if "L" in self.down and not ctrl:
            s = -0.3 * self.rs if self.mode == "camera_centered" else self.rs
            self.rotate([s * dy, -s * dx, 0])
        elif "R" in self.down and shift:
            self.K[0, 0] *= 2 ** (-dy / 20)
            self.K[1, 1] *= 2 ** (-dy / 20)
        elif "R" in self.down and not ctrl:
            if abs(dy) >= abs(dx):
                self.E[2, 3] -= self.zs * dy
            else:
                self.rotate([0, 0, self.rs * dx])
        elif "M" in self.down or "L" in self.down and ctrl:
            depth = self.E[2, :3].dot(self.c) + self.E[2, 3]
            self.panning = True
            t = self.xs * depth * np.array([dx, dy, 0.0])
            self.E[:, 3] += t
            self.c = self.c - t.dot(self.E[:, :3])
        else:
            return
        self.last = (x, y)


def flags_of(op, down):
    f = sum(BIT[b] for b in down)
    if op[0] == "move":
        f |= op[1]
    if op[0] == "wheel":
        f |= 120 << 16
    return 0 if op[0] == "idle" else f


def apply(w, op):
    m = w.m
    if op[0] == "mode":
        with contextlib.redirect_stdout(io.StringIO()):
            w.it.toggle_mode()
        m.event(op, 0)
        return
    down = dict(m.down)
    if op[0] == "down":
        down[op[1]] = True
    if op[0] == "up":
        down.pop(op[1], None)
    f = flags_of(op, down)
    code = CODE.get(op[:2], cv2.EVENT_MOUSEWHEEL if op[0] == "wheel" else cv2.EVENT_MOUSEMOVE)
    if op[0] == "move" and f == 0:
        op = ("idle", 0, op[2])
    m.event(op, f)
    x, y = PT[op[2]]
    w.it.mouse_callback(code, x, y, f, None)


def bad(r, sig, text):
    if sig not in KNOWN or sig not in [m[0] for m in r.msgs]:
        r.bad(sig, text)


def failed(r):
    return any(s not in KNOWN for s, _ in r.msgs)


def state(m):
    return dict(extrinsic=m.E.copy(), intrinsic=m.K.copy(), object_center=m.c.copy())


def near(a, b):
    a = np.asarray(a)
    return a.shape == b.shape and np.abs(a - b).max() <= 1e-9 * (1 + np.abs(b).max())


def truncated(w, before):
    """Recorded finding: integer pose and intrinsics lose the fractional part of a translation or zoom."""
    ok = True
    for n, got in (("extrinsic", w.cam.extrinsic), ("intrinsic", w.cam.intrinsic)):
        want = state(w.m)[n]
        if got.dtype.kind == "i" and np.array_equal(before[n], np.trunc(before[n])):
            want = np.trunc(want + 1e-12 * np.sign(want))
        ok &= near(got, want)
    return ok and near(w.it.object_center, w.m.c)


def compare(r, w, text, before):
    """False if the word cannot be continued."""
    m = w.m
    for n, got, want in (("pose", w.cam.extrinsic, m.E), ("intrinsic", w.cam.intrinsic, m.K), ("orbit centre", w.it.object_center, m.c)):
        if not near(got, want):
            bad(r, INTEGER if w.mode_dt == "int" and truncated(w, before) else n, "%s: %s is %s, expected %s" % (text, n, np.asarray(got).tolist(), want.tolist()))
            return False
    Rm = np.asarray(w.cam.extrinsic)[:, :3]
    if np.abs(Rm.dot(Rm.T) - np.eye(3)).max() > 1e-9 or np.linalg.det(Rm) < 0.5:
        r.bad("rigid", "%s: the pose is not a rigid motion" % text)
    w.past.append(state(m))
    now = dict(zip(("extrinsic", "intrinsic", "object_center"), (w.cam2.extrinsic, w.cam2.intrinsic, w.it2.object_center)))
    for n, a, b in w.given:
        for what, x in (("the array %s given by the caller" % n, a), ("the %s of another interactor made from the same arrays" % n, now[n])):
            if not np.array_equal(x, b) and (w.center or n != "object_center"):
                bad(r, ALIASED if any(near(x, p[n]) for p in w.past) else "given " + n, "%s: %s was modified" % (text, what))
    return not failed(r)


def run(r, w, op, word):
    text = "config %s events %s" % (w.name, word + [op])
    before = state(w.m)
    try:
        apply(w, op)
    except Exception as e:
        known = isinstance(e, TypeError) and "int64" in str(e) and w.m.panning
        bad(r, INTEGER if known and w.mode_dt == "int" else CENTRE if known and not w.center else "exception:" + type(e).__name__, "%s: %r" % (text, e))
        return False
    r.n += 1
    r.count("transitions")
    return compare(r, w, text, before)


def possible(m, op):
    """Event sequences a window system can produce."""
    if op[0] == "down":
        return op[1] not in m.down
    if op[0] == "up":
        return op[1] in m.down
    return True


def walk(r, w, depth, word, seen):
    if depth == 0 or failed(r):
        r.count("traces")
        return
    for op in OPS:
        if not possible(w.m, op):
            continue
        if depth == 1 and op[0] in ("down", "mode"):
            continue
        w2 = copy.deepcopy(w)
        cont = run(r, w2, op, word)
        m = w2.m
        key = (m.mode, tuple(sorted(m.down)), m.last, np.round(np.concatenate([m.E.ravel(), m.K.ravel(), m.c]), 9).tobytes())
        if hash(key) not in seen:
            seen.add(hash(key))
            r.count("states")
            r.key(hash(key))
        if cont:
            walk(r, w2, depth - 1, word + [op], seen)
        else:
            r.count("traces")


def retrace(r, config, n):
    for button, mod in itertools.product("LRM", (0, CTRL, SHIFT)):
        for k in range(1, n + 1):
            for path in itertools.product(range(3), repeat=k):
                if any(a == b for a, b in zip(path, path[1:])):
                    continue
                w = World(config)
                E, K, c = np.array(w.cam.extrinsic, float), np.array(w.cam.intrinsic, float), np.array(w.it.object_center, float)
                full = path + path[-2::-1]
                f = BIT[button] | mod
                x, y = PT[full[0]]
                if w.mode_dt == "int" or not w.center:  # see the recorded findings
                    w.cam.extrinsic, w.cam.intrinsic, w.it.object_center = E.copy(), K.copy(), c.copy()
                w.it.mouse_callback(CODE["down", button], x, y, f, None)
                for p in full[1:]:
                    w.it.mouse_callback(cv2.EVENT_MOUSEMOVE, *PT[p], f, None)
                w.it.mouse_callback(CODE["up", button], *PT[full[-1]], mod, None)
                r.n += 1
                if not (np.allclose(w.cam.extrinsic, E, atol=1e-9) and np.allclose(w.cam.intrinsic, K, rtol=1e-9) and np.allclose(w.it.object_center, c, atol=1e-9)):
                    r.bad("retrace", "config %s: button %s modifier %d path %s and back does not restore the camera" % (CONFIGS[config], button, mod, path))
                    return
                r.key("retrace", config, button, mod, path)
                r.count("traces")


def check(case):
    r = R()
    r.n = 0
    if case["part"] == "retrace":
        try:
            retrace(r, case["config"], case["n"])
        except Exception as e:
            r.bad("exception:" + type(e).__name__, "retrace: %r" % e)
        return r
    try:
        w = World(case["config"])
    except Exception as e:
        r.bad("exception:" + type(e).__name__, "%s: %r" % (CONFIGS[case["config"]], e))
        return r
    w.name = CONFIGS[case["config"]]
    op = OPS[case["first"]]
    if not possible(w.m, op):
        return r
    if run(r, w, op, []):
        walk(r, w, case["depth"] - 1, [op], set())
    return r
