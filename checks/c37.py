"""C37: the MATLAB gateways, compiled against a stand-in for mex.h, against the Python renderer."""
import ctypes
import fcntl
import hashlib
import itertools
import os
import subprocess

import numpy as np

import build
from dlib import dr, hashed
from runner import R
from scenes import LATX, SHAPES, DEPTHS, fan, multi, single

ID = "C37"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of scenes and of call sequences, gateway and Python renderer run side by side; exhaustive enumeration of malformed arguments"
RULE = ("scenes (lattice triangles, overlapping pairs and triples, fans; coloured, textured, shaded; 1 to 3 channels; portrait and landscape) x sigma (0, 1, 1.75) x image or residual rendering x 1 to 3 "
        "returned arrays, forward and backward (gradients added to earlier contents); every field and argument x every malformation (missing, wrong class, extra or missing row, column, or dimension, index "
        "out of range); all sequences of 3 calls over two scenes, both modes and refused calls. Results equal the Python renderer's bit for bit up to 1e-12, inputs are unchanged, no byte outside the arrays is written")
ASSUME = ["a stand-in for MATLAB's mex.h with the documented behaviour: arrays stored by columns, mexErrMsgTxt does not return"]
NOTE = "a gateway that no longer compiles against the stand-in is reported"

CLS = {"double": 6, "single": 7, "uint32": 13, "logical": 3, "int32": 12, "uint8": 9}
NP = {"double": np.float64, "single": np.float32, "uint32": np.uint32, "logical": np.bool_, "int32": np.int32, "uint8": np.uint8}
FIELDS = dict(faces="uint32", faces_uv="uint32", depths="double", uv="double", ij="double", shade="double", colors="double", textured="logical", edgeflags="logical", shaded="logical",
              background="double", texture="double")
GR = dict(texture_b="double", uv_b="double", ij_b="double", shade_b="double", colors_b="double")
ROWS = ("depths", "shade", "textured", "shaded", "shade_b")  # 1 x n


class MxArray(ctypes.Structure):
    pass


MxArray._fields_ = [("class_id", ctypes.c_int64), ("ndim", ctypes.c_int64), ("dims", ctypes.c_size_t * 4), ("data", ctypes.c_void_p), ("nb_fields", ctypes.c_int64),
                    ("names", ctypes.POINTER(ctypes.c_char_p)), ("values", ctypes.POINTER(ctypes.POINTER(MxArray)))]

LIB = {}
ERROR = None


def prepare():
    global ERROR
    top, inc = os.path.join(build.REPO, "Matlab"), os.path.join(build.VERIF, "cpp", "mex")
    h = hashlib.sha256()
    for d in (top, os.path.join(build.REPO, "C++"), inc):
        for f in sorted(os.listdir(d)):
            if f.endswith((".cpp", ".h", ".hpp", ".cc", ".inl")):
                h.update(open(os.path.join(d, f), "rb").read())
    out = os.path.join(build.CACHE, "mex-" + h.hexdigest()[:20])
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(build.CACHE, "lock-mex"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = []
        for name in ("render", "render_b"):
            so = os.path.join(out, name + ".so")
            if not os.path.exists(so):
                jobs.append((so, subprocess.Popen(["g++", "-O1", "-w", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-I" + inc, os.path.join(top, name + ".cpp"), "-o", so + ".tmp"], stdout=subprocess.PIPE,
                                                  stderr=subprocess.STDOUT, text=True)))
        for so, p in jobs:
            o, _ = p.communicate()
            if p.returncode:
                ERROR = o[-1500:]
            else:
                os.rename(so + ".tmp", so)
    if ERROR is None:
        for name in ("render", "render_b"):
            LIB[name] = ctypes.CDLL(os.path.join(out, name + ".so"))


GUARD = 64


class Arr:
    """Array given to a gateway: MATLAB dimensions and class, values in a guarded block of memory."""

    def __init__(self, value, cls="double", dims=None):
        value = np.asarray(value)
        self.dims = tuple(value.shape[::-1]) if dims is None else dims  # first index varies fastest
        self.cls = cls
        raw = value.astype(NP[cls]).tobytes()
        self.mem = np.full(len(raw) + 2 * GUARD, 0xA5, dtype=np.uint8)
        self.mem[GUARD:GUARD + len(raw)] = np.frombuffer(raw, dtype=np.uint8)
        self.n = len(raw)
        self.shape = value.shape
        self.before = self.mem.copy()
        m = self.mx = MxArray()
        m.class_id, m.ndim = CLS[cls], len(self.dims)
        for i, d in enumerate(self.dims):
            m.dims[i] = d
        m.data = self.mem.ctypes.data + GUARD

    def value(self):
        return self.mem[GUARD:GUARD + self.n].view(NP[self.cls]).reshape(self.shape)

    def guards(self):
        return (self.mem[:GUARD] == 0xA5).all() and (self.mem[GUARD + self.n:] == 0xA5).all()

    def unchanged(self):
        return np.array_equal(self.mem, self.before)


class Struct:
    def __init__(self, fields, number=1):
        self.fields = dict(fields)
        n = len(self.fields)
        self.names = (ctypes.c_char_p * n)(*[k.encode() for k in self.fields])
        self.values = (ctypes.POINTER(MxArray) * n)(*[ctypes.pointer(a.mx) for a in self.fields.values()])
        m = self.mx = MxArray()
        m.class_id, m.ndim, m.nb_fields = 2, 2, n
        m.dims[0], m.dims[1] = 1, number
        m.names, m.values = self.names, self.values


def call(name, args, nlhs):
    """-> (0 returned, 1 error, 2 escaped), message, list of results."""
    out = (ctypes.POINTER(MxArray) * (nlhs + 3))()
    inp = (ctypes.POINTER(MxArray) * (len(args) + 1))(*[ctypes.pointer(a.mx) for a in args])
    msg = ctypes.create_string_buffer(300)
    rc = LIB[name].vf_call(nlhs, out, len(args), inp, msg, 300)
    res = []
    spill = any(bool(out[i]) for i in range(max(1, nlhs), nlhs + 3))
    bad = 0
    for i in range(nlhs):
        if out[i]:
            m = out[i].contents
            shape = tuple(m.dims[k] for k in range(m.ndim))[::-1]
            if m.class_id == 6:
                res.append(np.ctypeslib.as_array(ctypes.cast(m.data, ctypes.POINTER(ctypes.c_double)), shape).copy())
            else:
                res.append(None)
    for i in range(nlhs + 3):
        if out[i]:
            bad += LIB[name].vf_free(out[i])
    if spill:
        msg.value = b"writes results that were not asked for"
        rc = 3
    if bad:
        msg.value = b"writes outside the arrays it returns"
        rc = 3
    return rc, msg.value.decode(errors="replace"), res


def full(s):
    """Every scene as MATLAB passes it: a texture and an image background."""
    nc = s.colors.shape[1]
    if np.asarray(s.texture).ndim != 3:
        s.texture = 0.25 + hashed(2 * 3 * nc, 5).reshape(2, 3, nc)
    if s.background_image is None:
        s.background_image = np.tile(s.background_color, (s.height, s.width, 1)).astype(float) + 0.125 * np.arange(s.height * s.width).reshape(s.height, s.width, 1)
        s.background_color = None
    for g in GR:
        setattr(s, g, np.zeros(np.asarray(getattr(s, g[:-2])).shape))
    return s


FLAGS = dict(clockwise=True, backface_culling=True, strict_edge=True, perspective_correct=False, integer_pixel_centers=True)


def fields(s, grads=False):
    out = {}
    for k, c in FIELDS.items():
        v = s.background_image if k == "background" else getattr(s, k)
        out[k] = Arr(v, c, (1, len(v)) if k in ROWS else None)
    if grads:
        for k, c in GR.items():
            v = getattr(s, k)
            out[k] = Arr(v, c, (1, len(v)) if k in ROWS else None)
    return out


def seeded(s, salt):
    for i, g in enumerate(GR):
        a = getattr(s, g)
        setattr(s, g, (hashed(a.size, salt + i) - 0.5).reshape(a.shape))


def same(a, b):
    return a is not None and a.shape == b.shape and bool((((np.abs(a - b) <= 1e-12 * (1 + np.abs(b)))) | (a == b) | (np.isnan(a) & np.isnan(b))).all())


SIG = (0.0, 1.0, 1.75)


def forward(r, s, sigma, residual, nlhs, text, nrhs3=False):
    h, w, c = s.background_image.shape
    obs = hashed(h * w * c, 9).reshape(h, w, c)
    im, z, e = np.zeros((h, w, c)), np.zeros((h, w)), np.zeros((h, w))
    dr.renderScene(s, sigma, im, z, residual, obs if residual else None, e if residual else None)
    f = fields(s)
    st = Struct(f)
    args = [st, Arr(np.array([[sigma]]))]
    if residual or nrhs3:
        args.append(Arr(np.array([[residual]]), "logical"))
    if residual:
        args.append(Arr(obs))
    rc, msg, res = call("render", args, nlhs)
    if rc:
        r.bad("refused" if rc < 3 else "memory", "%s: render: %s" % (text, msg))
        return None
    want = [im, z, e][:nlhs]
    for n, a, b in zip(("image", "z_buffer", "err_buffer"), res, want):
        if not same(a, b):
            r.bad(n, "%s: %s is %s, the Python renderer gives %s" % (text, n, None if a is None else (a.shape, a.ravel()[:8]), b.ravel()[:8]))
    if len(res) != len(want):
        r.bad("results", "%s: %d results for %d" % (text, len(res), len(want)))
    for k, a in list(f.items()) + list(enumerate(args[1:])):
        if not a.unchanged():
            r.bad("inputs", "%s: render changes %s" % (text, k))
    r.key(np.round(im, 6).tobytes())
    return im, z, e, obs


def backward(r, s, sigma, residual, state, text, salt=0, call_it=True):
    im, z, e, obs = state
    h, w, c = im.shape
    seeded(s, salt)
    f = fields(s, True)
    st = Struct(f)
    if residual:
        eb = hashed(h * w, 4 + salt).reshape(h, w) - 0.3
        args = [st, Arr(im), Arr(z), Arr(np.zeros((0, 0))), Arr(np.array([[sigma]])), Arr(np.array([[1.0]])), Arr(obs), Arr(e), Arr(eb)]
        free = (1, 7, 8)
        if call_it:
            dr.renderSceneB(s, sigma, im.copy(), z.copy(), None, True, obs, e.copy(), eb.copy())
    else:
        ib = hashed(h * w * c, 5 + salt).reshape(h, w, c) - 0.4
        args = [st, Arr(im), Arr(z), Arr(ib), Arr(np.array([[sigma]]))]
        free = (1, 3)
        if call_it:
            dr.renderSceneB(s, sigma, im.copy(), z.copy(), ib.copy())
    rc, msg, _ = call("render_b", args, 0)
    if rc:
        r.bad("refused" if rc < 3 else "memory", "%s: render_b: %s" % (text, msg))
        return
    for k in GR:
        if not same(f[k].value(), getattr(s, k)):
            r.bad("gradient " + k, "%s: %s is %s, the Python renderer gives %s" % (text, k, f[k].value().ravel()[:8], getattr(s, k).ravel()[:8]))
    for k, a in list(f.items()) + list(enumerate(args)):
        if isinstance(a, Struct):
            continue
        if not a.guards():
            r.bad("memory", "%s: render_b writes outside %s" % (text, k))
        elif k not in GR and k not in free and not a.unchanged():
            r.bad("inputs", "%s: render_b changes %s" % (text, k))


def make(spec):
    kind = spec[0]
    if kind == "single":
        _, a, b, c, i = spec
        # portrait and landscape
        w, h = ((4, 5), (5, 4), (3, 6))[i % 3]
        return full(single(LATX, a, b, c, i, FLAGS, width=w, height=h))
    if kind == "multi":
        _, sh, i = spec
        tex = (0, 1, 2, 3, 5, 7)[i % 6]
        return full(multi([SHAPES[k] for k in sh], [DEPTHS[(k + i) % 4] for k in range(len(sh))], i, FLAGS, textured=tex))
    _, n, i = spec
    return full(fan(n, i, FLAGS, flat=bool(i % 2), width=(6, 5)[i % 2], height=(5, 7)[i % 2]))


def cases(tier):
    th = tier != "quick"
    yield dict(k="build")
    n = len(LATX)
    idx = 0
    for a, b, c in itertools.permutations(range(n), 3):
        (x0, y0), (x1, y1), (x2, y2) = LATX[a], LATX[b], LATX[c]
        if (x1 - x0) * (y2 - y0) == (x2 - x0) * (y1 - y0):
            continue
        idx += 1
        if th or idx % 8 == 0:
            yield dict(k="same", s=("single", a, b, c, idx // 8 if not th else idx))
    for m in (2, 3):
        for sh in itertools.permutations(range(len(SHAPES)), m):
            idx += 1
            if m == 2 or th or idx % 4 == 0:
                yield dict(k="same", s=("multi", sh, idx if th else idx // (1 if m == 2 else 4)))
    for k in (3, 4, 5, 7):
        for i in range(16):
            yield dict(k="same", s=("fan", k, i))
    for which in range(6):
        yield dict(k="refuse", w=which)
    for w in itertools.product(range(len(OPS)), repeat=4 if th else 3):
        yield dict(k="word", w=w)


OPS = ("fA", "fB", "eA", "bA", "bB", "ebA", "bad", "badb")
A_ = ("multi", (0, 4, 5), 2)
B_ = ("multi", (2, 3), 1)


def check(case):
    r = R()
    if ERROR is not None:
        r.bad("build", "the gateway does not compile: " + ERROR)
        return r
    if case["k"] == "same":
        r.n = 0
        for sigma in SIG:
            for residual in (False, True):
                for nlhs in (3, 2, 1) if residual else (2, 1):
                    s = make(case["s"])
                    st = forward(r, s, sigma, residual, nlhs, "%s sigma %s %s nlhs %d" % (case["s"], sigma, ("image", "residual")[residual], nlhs), nrhs3=nlhs == 2)
                    r.n += 1
                if st is not None:
                    backward(r, make(case["s"]), sigma, residual, st, "%s sigma %s %s" % (case["s"], sigma, ("image", "residual")[residual]), int(residual))
                    r.n += 1
        return r
    if case["k"] == "refuse":
        return refuse(r, case["w"])
    if case["k"] == "word":
        return word(r, case["w"])
    return r


def word(r, w):
    states = {}
    r.n = len(w)
    for i, o in enumerate(w):
        op = OPS[o]
        text = "calls %s, call %d" % ([OPS[q] for q in w], i)
        if op in ("bad", "badb"):
            s = make(A_)
            f = fields(s, True)
            f["shade"] = Arr(s.shade[:-1], "double", (1, len(s.shade) - 1))
            args = [Struct(f), Arr(np.array([[1.0]]))] if op == "bad" else [Struct(f), Arr(s.background_image), Arr(np.zeros((s.height, s.width))), Arr(s.background_image), Arr(np.array([[1.0]]))]
            rc, msg, _ = call("render" if op == "bad" else "render_b", args, 2 if op == "bad" else 0)
            if rc != 1:
                r.bad("refusal", "%s: not refused: %s" % (text, msg))
            continue
        spec = A_ if op[-1] == "A" else B_
        residual = op[0] == "e"
        s = make(spec)
        if "b" not in op:
            forward(r, s, 1.0, residual, 3 if residual else 2, text)
            continue
        key = (op[-1], residual)
        if key not in states:
            t = make(spec)
            h, wd, c = t.background_image.shape
            obs = hashed(h * wd * c, 9).reshape(h, wd, c)
            im, z, e = np.zeros((h, wd, c)), np.zeros((h, wd)), np.zeros((h, wd))
            dr.renderScene(t, 1.0, im, z, residual, obs if residual else None, e if residual else None)
            states[key] = im, z, e, obs
        backward(r, s, 1.0, residual, states[key], text, i)
    return r


def malformed(name, a, s):
    """Malformed versions of an array: (text, Arr or None when it is missing)."""
    v, c, d = a.value(), a.cls, a.dims
    yield "missing", None
    for o in CLS:
        if o != c and not (name == "antialias" or name == "sigma"):
            yield "class " + o, Arr(v, o, d)
    flat = v.ravel()
    for ax in range(len(d)):
        for delta in (-1, 1):
            nd = tuple(x + delta * (k == ax) for k, x in enumerate(d))
            if min(nd) < 1:
                continue
            yield "dims %s for %s" % (nd, d), Arr(np.resize(flat, int(np.prod(nd))), c, nd)
    if len(d) == 2:
        yield "dims %s for %s" % (d + (2,), d), Arr(np.resize(flat, flat.size * 2), c, d + (2,))
        if d[0] != d[1]:
            yield "transposed %s" % (d,), Arr(v, c, d[::-1])
    else:
        yield "dims %s for %s" % (d + (2,), d), Arr(np.resize(flat, flat.size * 2), c, d + (2,))
        yield "dims %s for %s" % ((d[0], d[1] * d[2]), d), Arr(v, c, (d[0], d[1] * d[2]))
    if name in ("faces", "faces_uv"):
        n = len(s.depths) if name == "faces" else len(s.uv)
        for big in (n, n + 1, 2**31, 2**32 - 1):
            for at in range(flat.size):
                x = flat.copy()
                x[at] = big
                yield "index %d of %d at %d" % (big, n, at), Arr(x.reshape(v.shape), c, d)


def refuse(r, which):
    """which: 0 render, 1 residual render, 2 backward, 3 residual backward, 4 other struct arrays, 5 missing arguments."""
    r.n = 0
    specs = (A_, B_, ("single", 1, 13, 17, 8))
    for spec in specs:
        s = make(spec)
        h, w, c = s.background_image.shape
        obs = hashed(h * w * c, 9).reshape(h, w, c)
        im, z, e = np.zeros((h, w, c)), np.zeros((h, w)), np.zeros((h, w))
        dr.renderScene(s, 1.0, im, z, True, obs, e)
        one = lambda v: Arr(np.array([[v]], dtype=float))
        for mode in ((which,) if which < 4 else (0, 1, 2, 3)):
            back = mode > 1
            gate = "render_b" if back else "render"

            def build_args():
                f = fields(make(spec), back)
                rest = {0: dict(sigma=one(1.0)), 1: dict(sigma=one(1.0), antialias=one(1.0), obs=Arr(obs)),
                        2: dict(image=Arr(im), z_buffer=Arr(z), image_b=Arr(obs), sigma=one(1.0)),
                        3: dict(image=Arr(im), z_buffer=Arr(z), image_b=Arr(np.zeros((0, 0))), sigma=one(1.0), antialias=one(1.0), obs=Arr(obs), err=Arr(e), err_b=Arr(e))}[mode]
                return f, rest

            def expect(text, f, rest, st=None):
                r.n += 1
                rc, msg, _ = call(gate, [st or Struct(f)] + list(rest.values()), 0 if back else mode + 2)
                if rc != 1:
                    r.bad("refusal", "%s %s: %s: %s" % (gate, spec, text, ("accepted", "", "an exception of the renderer escapes from the gateway: " + msg, msg)[rc]))
                for k, a in list(f.items()) + list(rest.items()):
                    if not a.unchanged():
                        r.bad("refusal changes", "%s %s: %s: %s is modified" % (gate, spec, text, k))

            if which < 4:
                f0, rest0 = build_args()
                for name in list(f0) + list(rest0):
                    base = f0.get(name) or rest0[name]
                    if name in ("sigma", "antialias") or (name == "image_b" and mode == 3):
                        continue
                    for text, a in malformed(name, base, s):
                        f, rest = build_args()
                        if name in f:
                            if a is None:
                                del f[name]
                            else:
                                f[name] = a
                        elif a is None:
                            continue
                        else:
                            rest[name] = a
                        if a is not None and a.cls == base.cls and consistent(mode, name, f):
                            continue
                        expect("%s %s" % (name, text), f, rest)
            elif which == 4:
                f, rest = build_args()
                for number in (0, 2, 3):
                    expect("struct array of %d elements" % number, f, rest, Struct(f, number))
                expect("an array instead of a struct", f, rest, Arr(np.zeros((2, 2))))
            else:
                f, rest = build_args()
                names = list(rest)
                need = {0: 1, 1: 3, 2: 4, 3: 8}[mode]
                for n in range(need):
                    if mode in (1, 3) and n == {1: 1, 3: 4}[mode]:
                        continue  # the flag itself is missing: a plain rendering
                    expect("only %s" % names[:n], f, {k: rest[k] for k in names[:n]})
    return r


def consistent(mode, name, f):
    """The scene is still consistent with this array."""
    d = f[name].dims if name in f else None
    if name == "uv" and mode < 2:
        return len(d) == 2 and d[0] == 2 and f["faces_uv"].value().max() < d[1]
    if name == "texture" and mode < 2:
        return len(d) == 3 and d[0] == f["colors"].dims[0]
    if name == "background" and mode == 0:
        return len(d) == 3 and d[0] == f["colors"].dims[0]
    return False
