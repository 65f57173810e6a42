"""A small GLSL interpreter (straight-line functions over float, vec2-4, mat4, sampler2D) so that the shaders are executed as they are written."""
import re

import numpy as np


class Unsupported(Exception):
    pass


SW = {c: i for s in ("xyzw", "rgba", "stpq") for i, c in enumerate(s)}


class Vec:
    __slots__ = ("v",)

    def __init__(self, *a):
        flat = []
        for x in a:
            flat += list(x.v) if isinstance(x, Vec) else [float(x)]
        object.__setattr__(self, "v", np.array(flat))

    def __getattr__(self, n):
        if not all(c in SW for c in n):
            raise Unsupported(n)
        if len(n) == 1:
            return float(self.v[SW[n]])
        return Vec(*[self.v[SW[c]] for c in n])

    def __setattr__(self, n, x):
        if not all(c in SW for c in n):
            raise Unsupported(n)
        xs = x.v if isinstance(x, Vec) else [x]
        if len(xs) != len(n):
            raise Unsupported("swizzle size")
        for c, y in zip(n, xs):
            self.v[SW[c]] = y

    def __getitem__(self, i):
        return float(self.v[i])

    def _bin(self, o, f):
        if isinstance(o, Mat):
            raise Unsupported("vector times matrix")
        return Vec(*f(self.v, o.v if isinstance(o, Vec) else o))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __mul__(self, o): return Vec(*(self.v @ o.m)) if isinstance(o, Mat) else self._bin(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __radd__(self, o): return self + o
    def __rsub__(self, o): return Vec(*(o - self.v))
    def __rmul__(self, o): return self * o
    def __neg__(self): return Vec(*(-self.v))


class Mat:
    """m[row, column]."""

    def __init__(self, m):
        self.m = np.array(m, dtype=float)

    @staticmethod
    def from_bytes(b, dt="f4"):
        return Mat(np.frombuffer(b, dtype=dt).astype(float).reshape(4, 4).T)  # column major

    def __mul__(self, o):
        if isinstance(o, Vec):
            return Vec(*(self.m @ o.v))
        if isinstance(o, Mat):
            return Mat(self.m @ o.m)
        return Mat(self.m * o)


def vec(n):
    def make(*a):
        r = Vec(*a)
        if len(r.v) == 1:
            r = Vec(*[r.v[0]] * n)
        if len(r.v) != n:
            if len(a) == 1 and len(r.v) > n:
                return Vec(*r.v[:n])
            raise Unsupported("vec%d of %d values" % (n, len(r.v)))
        return r
    return make


def _each(f):
    def g(*a):
        if any(isinstance(x, Vec) for x in a):
            n = max(len(x.v) for x in a if isinstance(x, Vec))
            return Vec(*[f(*[x.v[i] if isinstance(x, Vec) else x for x in a]) for i in range(n)])
        return f(*a)
    return g


BUILTIN = dict(vec2=vec(2), vec3=vec(3), vec4=vec(4), max=_each(max), min=_each(min), abs=_each(abs), sqrt=_each(np.sqrt), pow=_each(lambda a, b: a ** b), sin=_each(np.sin), cos=_each(np.cos),
               clamp=_each(lambda x, a, b: min(max(x, a), b)), mix=_each(lambda a, b, t: a * (1 - t) + b * t), dot=lambda a, b: float(a.v @ b.v), length=lambda a: float(np.sqrt(a.v @ a.v)),
               normalize=lambda a: a / np.sqrt(a.v @ a.v), float=float, texture=lambda s, uv: s(uv), texture2D=lambda s, uv: s(uv))
TYPES = r"(?:float|int|vec2|vec3|vec4|mat4|mat3|bool)"


class Shader:
    def __init__(self, src):
        src = re.sub(r"//[^\n]*", "", src)
        src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
        src = re.sub(r"^\s*#.*$", "", src, flags=re.M)
        self.decl = {}
        for m in re.finditer(r"\b(uniform|in|out|varying|attribute)\s+(\w+)\s+([\w\s,]+);", src):
            for n in m.group(3).split(","):
                self.decl[n.strip()] = (m.group(1), m.group(2))
        glob = re.sub(r"(?:layout\s*\([^)]*\)\s*)?\b(uniform|in|out|varying|attribute)\s+\w+\s+[\w\s,]+;", "", src)
        self.code = []
        self.consts = []
        pos = 0
        while True:
            m = re.compile(r"\b(?:const\s+)?(void|" + TYPES[3:-1] + r")\s+(\w+)\s*").search(glob, pos)
            if not m:
                break
            if glob[m.end():m.end() + 1] == "(":
                close = glob.index(")", m.end())
                args = [re.sub(r"\b(in|const|highp|mediump)\b", "", a).split() for a in glob[m.end() + 1:close].split(",") if a.strip() and a.strip() != "void"]
                i = glob.index("{", close)
                depth, k = 1, i + 1
                while depth:
                    depth += {"{": 1, "}": -1}.get(glob[k], 0)
                    k += 1
                self.code.append((m.group(2), [a[1] for a in args], self.body(glob[i + 1:k - 1])))
                pos = k
            else:
                k = glob.index(";", m.end())
                self.consts.append(self.stmt(glob[m.start():k]))
                pos = k + 1

    def stmt(self, s):
        s = s.strip()
        s = re.sub(r"^const\s+", "", s)
        m = re.match(TYPES + r"\s+(\w+)\s*(=.*)?$", s, flags=re.S)
        copy = ""
        if m:
            if m.group(2) is None:
                return "%s = _zero(%r)" % (m.group(1), s.split()[0])
            s = m.group(1) + " " + m.group(2)
            depth = 0
            for c in m.group(2):
                depth += {"(": 1, ")": -1}.get(c, 0)
                if c == "," and depth == 0:
                    raise Unsupported("several declarations")
        if re.search(r"\b(if|for|while|else|discard)\b", s) or "?" in s or "{" in s:
            raise Unsupported(s)
        m = re.match(r"(\w+)\s*=\s*(.*)$", s, flags=re.S)
        if m and "=" not in m.group(2):
            s = "%s = _copy(%s)" % (m.group(1), m.group(2))
        return " ".join(s.split())

    def body(self, text):
        return [self.stmt(s) for s in text.split(";") if s.strip()]

    def run(self, **inputs):
        env = dict(BUILTIN)
        env["_copy"] = lambda x: Vec(*x.v) if isinstance(x, Vec) else x
        env["_zero"] = lambda t: BUILTIN[t](0.0) if t != "float" else 0.0
        outs = [n for n, (q, _) in self.decl.items() if q == "out"] + ["gl_Position", "gl_FragColor"]
        for n, (q, t) in self.decl.items():
            if t != "sampler2D":
                env[n] = Mat(np.zeros((4, 4))) if t == "mat4" else env["_zero"](t)
        env["gl_Position"] = env["gl_FragColor"] = Vec(0, 0, 0, 0)
        env.update(inputs)
        for c in self.consts:
            exec(c, env)
        src = ""
        for name, args, body in self.code:
            src += "def %s(%s):\n" % (name, ", ".join(args))
            if name == "main":
                src += "    global " + ", ".join(outs) + "\n"
            src += "".join("    %s\n" % b for b in body) or "    pass\n"
        exec(src, env)
        env["main"]()
        return {n: env[n] for n in outs}
