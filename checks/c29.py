"""C29: everything handed to OpenGL (moderngl and pyrender paths), recorded by a stand-in context; the shaders are interpreted as written."""
import itertools

import numpy as np

import camref
import meshes
from dlib import close, dr, hashed, quat_rot, rational_rotations
from runner import R
from s3d import Spec

ID = "C29"
LEVEL = "exploration"
RULE = ("all rotations by integer quaternions with entries up to 1 (thorough 2) x translations x intrinsics x distortion x image sizes x pixel-centre convention: the vertex shader, interpreted with the recorded uniforms and vertex buffers, "
        "must put every vertex in front of the camera at the pixel of the camera's own projection, with depth increasing inside the clip range; buffers against faces, positions, normals and uv; fragment shader against the renderer's lighting; "
        "the same renderer object used for sequences of scenes and image sizes; for pyrender the recorded camera, mesh and light nodes, all light directions of a 5x5x5 lattice and of the same lattice flattened towards the axis by 2^-3 .. 2^-24; distinct = distinct clip positions")
ASSUME = ["intrinsics without skew (others are refused)", "float32 uniforms and buffers", "context calls are recorded by a stand-in: rasterization by a real driver is in C41"]
KS = [np.array(m, dtype=np.float64) for m in ([[5, 0, 2], [0, 5, 2.5], [0, 0, 1]], [[7, 0, 4.25], [0, 4.5, 1.5], [0, 0, 1]], [[100, 0, 3.0], [0, 80, 7.5], [0, 0, 1]])]
DIST = (None, (0.1, -0.05, 0.02, 0.03, 0.01), (0.0, 0.2, 0.0, 0.0, 0.0), (0, 0, 0.1, 0, 0), (0, 0, 0, -0.1, 0), (0.0, 0, 0, 0, 0.3))
SIZES = ((5, 6), (9, 4), (16, 16))


class Uniform:
    def __init__(self):
        self.value = None

    def write(self, b):
        self.value = bytes(b)


class Ctx:
    """Records what moderngl would receive."""

    def __init__(self):
        self.cleared = None
        self.drawn = []

    def program(self, vertex_shader, fragment_shader, **k):
        c = self

        class P(dict):
            def __missing__(self, key):
                self[key] = Uniform()
                return self[key]
        p = P()
        p.sources = vertex_shader, fragment_shader
        return p

    def buffer(self, data=None, **k):
        return bytes(data)

    def vertex_array(self, program, content, *a, **k):
        ctx = self

        class VAO:
            def __init__(self):
                self.program, self.content, self.index = program, content, (a[0] if a else k.get("index_buffer"))

            def render(self, *a, **k):
                ctx.drawn.append((self, ctx.bound))
        return VAO()

    def texture(self, size, components, data=None, **k):
        ctx = self

        class T:
            def __init__(self):
                self.size, self.components, self.data = tuple(size), components, bytes(data)

            def use(self, *a, **k):
                ctx.bound = self

            def build_mipmaps(self, *a, **k):
                pass

            def release(self):
                pass
        return T()

    def renderbuffer(self, size, *a, **k):
        return tuple(size)

    depth_renderbuffer = renderbuffer

    def framebuffer(self, color, depth=None):
        ctx = self
        color = color[0] if isinstance(color, list) else color

        class F:
            width, height = color
            size = color

            def use(self):
                ctx.fbo = self

            def read(self, components=3, alignment=1, **k):
                return bytes(self.width * self.height * components)

            def release(self):
                pass
        return F()

    def enable(self, *a):
        pass

    enable_only = disable = enable

    def clear(self, *a, **k):
        self.cleared = a


def renderer():
    import moderngl
    saved = moderngl.create_standalone_context
    ctx = Ctx()
    try:
        moderngl.create_standalone_context = lambda *a, **k: ctx
        moderngl.create_context = lambda *a, **k: ctx
        from deodr.opengl.moderngl import OffscreenRenderer
        return OffscreenRenderer(), ctx
    finally:
        moderngl.create_standalone_context = saved


def scene3d(sp):
    sc = sp.make_scene()
    sc.mesh.texture.setflags(write=False)
    return sc


def cases(tier):
    rots = [q for q, _ in rational_rotations(2 if tier == "thorough" else 1)]
    for i in range(0, len(rots), 2):
        yield dict(kind="camera", q=rots[i:i + 2], n=i)
    for m in meshes.closed():
        for cw in (False, True):
            yield dict(kind="buffers", mesh=m, cw=cw)
    yield dict(kind="reuse")
    for x in range(-2, 3):
        yield dict(kind="light", x=x)
    for i in range(0, len(rots), 4):
        yield dict(kind="pyrender", q=rots[i:i + 4], n=i)


def attribute(vao, name):
    for buf, fmt, *names in vao.content:
        ns = [n for x in names for n in x.split()]
        if ns == [name]:
            return np.frombuffer(buf, dtype="f4").reshape(-1, int(fmt[0])).astype(float)
    raise KeyError(name)


def uniforms(p):
    import glsl
    out = {}
    for k, u in p.items():
        v = u.value
        if isinstance(v, bytes):
            v = glsl.Mat.from_bytes(v)
        elif isinstance(v, (tuple, list, np.ndarray)):
            v = glsl.Vec(*v) if len(v) < 16 else glsl.Mat(np.array(v, dtype=float).reshape(4, 4).T)
        out[k] = v
    return out


def camera_check(r, ctx, cam, V, ipc, text):
    """The vertex shader applied to the points V."""
    import glsl
    vao, tex = ctx.drawn[-1]
    try:
        sh = glsl.Shader(vao.program.sources[0])
        un = uniforms(vao.program)
        un = {k: v for k, v in un.items() if k in sh.decl}
        u0, d0 = camref.project(V, cam.extrinsic, cam.intrinsic, cam.distortion)
        last = None
        for p, u, d in sorted(zip(V.tolist(), u0, d0), key=lambda t: t[2]):
            if d < 0.002 * d0.max():
                continue
            o = sh.run(in_vert=glsl.Vec(*p), in_norm=glsl.Vec(0, 0, 1), in_text=glsl.Vec(0, 0, 0), **un)
            c = o["gl_Position"].v
            r.n += 1
            r.key(np.round(c, 5).tobytes())
            win = (c[:2] / c[3] + 1) / 2 * [cam.width, cam.height]
            want = u + (0.5 if ipc else 0.0)
            if not close(win / (1 + np.abs(u).max()), want / (1 + np.abs(u).max()), 1e-4):
                r.bad("pixel", "%s: point %s at window position %s, the camera gives pixel %s" % (text, p, win, u))
                return
            if c[3] <= 0:
                r.bad("clip w", "%s: point %s in front of the camera is clipped" % (text, p))
            z = c[2] / c[3]
            if last is not None and d > last[0] * 1.01 and z < last[1]:
                r.bad("depth order", text)
            if z > 1 + 1e-4 or z < -1 - 1e-4:
                r.bad("clip range", "%s: point %s at depth %g is outside the clip range (%g)" % (text, p, d, z))
            last = (d, z)
    except (glsl.Unsupported, SyntaxError, NameError):
        r.count("shader constructs outside the interpreter")


def check(case):
    import glsl
    r = R()
    r.n = 0
    k = case["kind"]
    if k == "camera":
        rend, ctx = renderer()
        for q, (ti, t), (ki, K), dist in itertools.product(case["q"], enumerate(camref.TRANS), enumerate(KS), DIST):
            ipc = bool((ti + ki + case["n"]) % 2)
            w, h = SIZES[(ti + 2 * ki + case["n"]) % 3]
            E = np.column_stack([quat_rot(q), t])
            P = camref.world(E)
            front = (P.dot(E[:, :3].T) + E[:, 3])[:, 2] > 0
            P = P[front]
            # points much closer to the camera than the others
            far = (P.dot(E[:, :3].T) + E[:, 3])[:, 2].max()
            P = np.vstack((P, (np.array([(0.001, -0.0005, 0.003), (-0.003, 0.004, 0.02)]) * far - E[:, 3]).dot(E[:, :3])))
            sc = dr.Scene3D(sigma=0, integer_pixel_centers=ipc)
            from deodr.triangulated_mesh import ColoredTriMesh
            F = np.array([(i, i + 1, i + 2) for i in range(len(P) - 2)])
            m = ColoredTriMesh(F, P, texture=np.ones((2, 3, 3)), uv=np.zeros((len(P), 2)), faces_uv=F, compute_adjacencies=False)
            m.texture.setflags(write=False)
            sc.set_mesh(m)
            sc.set_light(np.array((0.0, 0.0, 1.0)), 0.5)
            sc.set_background_color([0.25, 0.5, 0.75])
            cam = dr.Camera(E, K, h, w, distortion=dist)
            rend.set_scene(sc)
            img = rend.render(cam)
            text = "q=%s t=%s K=%s distortion=%s %dx%d integer_pixel_centers=%s" % (q, t, K.tolist(), dist, w, h, ipc)
            if img.shape != (h, w, 3) or (ctx.fbo.width, ctx.fbo.height) != (w, h):
                r.bad("framebuffer", text)
            if not close(ctx.cleared[:3], (0.25, 0.5, 0.75)):
                r.bad("background", text)
            # a soup of triangles whose hull contains the points; the shader must place them
            camera_check(r, ctx, cam, P, ipc, text)
            if r.msgs:
                return r
    elif k == "buffers":
        for kind, d in itertools.product(("t3", "t1"), (0, 1)):
            rend, ctx = renderer()
            sp = Spec(mesh=case["mesh"], kind=kind, cw=case["cw"], light=(0.25, -0.5, -0.75), ambient=0.125, deform=d)
            sc = scene3d(sp)
            if kind == "t1":
                sc.background_color = np.full(3, 0.5)
            rend.set_scene(sc)
            rend.render(sp.camera())
            buffers(r, ctx, sp, str(case))
            cam = sp.camera()
            camera_check(r, ctx, cam, sp.V, True, str(case))
            fragment(r, ctx, sp, str(case))
    elif k == "reuse":
        lib = [(6, 8), (8, 6), (12, 4), (6, 9)]
        for si, seq in enumerate(itertools.product(("tetra", "octa", "cube"), repeat=3)):
            sizes = list(itertools.product(lib, repeat=3))[7 * si % 64:][:1][0]
            rend, ctx = renderer()
            for j, m in enumerate(seq):
                sp = Spec(mesh=m, kind="t3", light=(0.25 + j, -0.5, -0.75), ambient=0.125 * j, colset=j, size=sizes[j])
                sc = scene3d(sp)
                rend.set_scene(sc)
                for _ in range(2):
                    img = rend.render(sp.camera())
                    if img.shape != sizes[j][::-1] + (3,) or (ctx.fbo.width, ctx.fbo.height) != sizes[j]:
                        r.bad("framebuffer", "sequence of image sizes %s: framebuffer %dx%d" % (sizes[:j + 1], ctx.fbo.width, ctx.fbo.height))
                r.n += 1
                r.key("reuse", seq, j)
                buffers(r, ctx, sp, "sequence %s" % (seq[:j + 1],))
                fragment(r, ctx, sp, "sequence %s" % (seq[:j + 1],))
                camera_check(r, ctx, sp.camera(), sp.V, True, "sequence %s" % (seq[:j + 1],))
                del sc
            if r.msgs:
                return r
        # texture arrays that take the place of freed ones
        rend, ctx = renderer()
        for j in range(40):
            keep = []
            for _ in range(2000):
                tex = np.zeros((2, 2, 3))
                if j == 0 or id(tex) == last:
                    break
                keep.append(tex)
            r.count("texture arrays at the address of a freed one", int(j > 0 and id(tex) == last))
            tex[...] = j / 64
            tex.setflags(write=False)
            rend.set_texture(tex)
            r.n += 1
            if not np.all(np.abs(np.frombuffer(rend.texture.data, np.uint8) / 255 - j / 64) < 1.01 / 255):
                r.bad("texture", "a texture array created after another one was freed shows the freed one")
                break
            last = id(tex)
            del tex
    elif k == "light":
        from deodr.opengl.pyrender import deodr_directional_light_to_pyrender
        # the lattice, and directions close to the optical axis on both sides
        for y, z, e in itertools.product(range(-2, 3), range(-2, 3), (1.0, 0.125, 2.0**-6, 2.0**-12, 2.0**-24)):
            d = np.array([case["x"] * e, y * e, z], dtype=float) * 0.5
            r.n += 1
            r.key("light", case["x"], y, z, e)
            light, pose = deodr_directional_light_to_pyrender(d)
            if not d.any():
                if light is not None:
                    r.bad("light", "light created for no directional light")
                continue
            got = pose[:3, :3].dot([0, 0, -1]) * light.intensity
            if not close(got, d, 2e-6) or not close(pose[:3, :3].dot(pose[:3, :3].T), np.eye(3), 1e-9) or not np.linalg.det(pose[:3, :3]) > 0:
                r.bad("light", "directional light %s becomes a light along %s" % (d, got))
    else:
        import pyrender
        import deodr.opengl.pyrender as dp
        saved = pyrender.offscreen.OffscreenRenderer
        got = []

        class Fake:
            def __init__(self, w, h, **k):
                got.append((w, h))

            def render(self, scene, *a, **k):
                got.append(scene)
                return np.zeros((1, 1, 3)), np.zeros((1, 1))

            def delete(self):
                pass
        pyrender.offscreen.OffscreenRenderer = Fake
        try:
            for q, (ki, K), ipc in itertools.product(case["q"], enumerate(KS), (True, False)):
                sp = Spec(mesh=("tetra", "octa", "cube", "torus33")[(case["n"] // 4 + ki) % 4], kind="t3", light=(0.25, -0.5, -0.75), ambient=0.125, ipc=ipc, pose=q, deform=ki % 2)
                sc = scene3d(sp)
                cam = dr.Camera(sp.E, K, SIZES[ki][1], SIZES[ki][0])
                del got[:]
                dp.render(sc, cam)
                r.n += 1
                pyr(r, got, sp, cam, "pyrender q=%s K=%s integer_pixel_centers=%s" % (q, K.tolist(), ipc))
                if r.msgs:
                    return r
        finally:
            pyrender.offscreen.OffscreenRenderer = saved
    return r


def buffers(r, ctx, sp, text):
    vao, tex = ctx.drawn[-1]
    if vao.index is not None:
        r.count("indexed drawing not interpreted")
        return
    pos, nor, uv = attribute(vao, "in_vert"), attribute(vao, "in_norm"), attribute(vao, "in_text")
    r.n += 1
    N = meshes.vertex_normals(sp.V, sp.F, sp.cw)
    H, W, C = sp.texture.shape
    for name, a, b in (("positions", pos, sp.V[sp.F].reshape(-1, 3)), ("normals", nor, N[sp.F].reshape(-1, 3)),
                       ("uv", uv[:, :2], (sp.uv[sp.faces_uv].reshape(-1, 2) + 0.5) / [W, H])):
        if not close(a, b, 1e-5):
            r.bad(name, "%s: %s buffer differs from the mesh" % (text, name))
    data = np.frombuffer(tex.data, dtype=np.uint8).reshape(-1)
    if tex.size != (W, H) or tex.components != C or data.size != sp.texture.size or np.abs(data / 255 - np.clip(sp.texture, 0, 1).ravel()).max() > 1.01 / 255 and sp.texture.max() <= 1:
        r.bad("texture", "%s: texture buffer differs" % text)
    r.key(pos.tobytes())


def fragment(r, ctx, sp, text):
    import glsl
    vao, tex = ctx.drawn[-1]
    try:
        sh = glsl.Shader(vao.program.sources[1])
        un = {k: v for k, v in uniforms(vao.program).items() if k in sh.decl}
        N = meshes.vertex_normals(sp.V, sp.F, sp.cw)
        L = sp.luminosity()
        seen = []

        def sampler(uv):
            seen.append(uv.v.copy())
            return glsl.Vec(0.25, 0.5, 0.75, 1.0)
        un["Texture"] = sampler
        for n, lum in zip(N, L):
            o = sh.run(v_vert=glsl.Vec(0, 0, 0), v_norm=glsl.Vec(*n), v_text=glsl.Vec(0.25, 0.75, 0.0), **un)
            c = (o.get("f_color") or o["gl_FragColor"]).v
            r.n += 1
            if not close(c[:3], lum * np.array([0.25, 0.5, 0.75]), 1e-5) or not close(seen[-1][:2], [0.25, 0.75], 1e-6):
                r.bad("lighting", "%s: fragment %s, expected the texture times %g" % (text, c, lum))
                return
    except (glsl.Unsupported, SyntaxError, NameError):
        r.count("shader constructs outside the interpreter")


def pyr(r, got, sp, cam, text):
    (w, h), scene = got[0], got[-1]
    if (w, h) != (cam.width, cam.height):
        return r.bad("pyrender size", text)
    cn = list(scene.camera_nodes)
    mn = list(scene.mesh_nodes)
    ln = list(scene.directional_light_nodes)
    if len(cn) != 1 or len(mn) != 1 or len(ln) != 1:
        return r.bad("pyrender nodes", text)
    prim = mn[0].mesh.primitives[0]
    pose = scene.get_pose(mn[0])
    V = np.asarray(prim.positions, dtype=float).dot(pose[:3, :3].T) + pose[:3, 3]
    idx = np.asarray(prim.indices).astype(int)
    N = meshes.vertex_normals(sp.V, sp.F, sp.cw)
    H, W, _ = sp.texture.shape
    tuv = (sp.uv[sp.faces_uv] + 0.5) / [W, H]
    tuv[..., 1] = 1 - tuv[..., 1]
    for perm in itertools.permutations(range(3)):  # the order of the corners of a face: C41
        if close(V[idx[:, perm]], sp.V[sp.F], 1e-5):
            idx = idx[:, perm]
            break
    for name, a, b in (("positions", V[idx], sp.V[sp.F]), ("normals", np.asarray(prim.normals, dtype=float)[idx], N[sp.F]), ("uv", np.asarray(prim.texcoord_0, dtype=float)[idx], tuv)):
        if not close(a, b, 1e-5):
            return r.bad("pyrender " + name, "%s: %s of the pyrender mesh differ" % (text, name))
    E = np.linalg.inv(scene.get_pose(cn[0]))
    P = cn[0].camera.get_projection_matrix(w, h)
    u, d = camref.project(sp.V, cam.extrinsic, cam.intrinsic, None)
    hom = np.column_stack([sp.V, np.ones(len(sp.V))]).dot(E.T).dot(P.T)
    x = (hom[:, 0] / hom[:, 3] + 1) / 2 * w
    y = h - (hom[:, 1] / hom[:, 3] + 1) / 2 * h
    off = 0.5 if sp.ipc else 0.0
    r.key(np.round(hom, 5).tobytes())
    if not close(np.stack([x, y], 1), u + off, 1e-6) or not (hom[:, 3] > 0).all():
        return r.bad("pyrender camera", "%s: vertices at %s, the camera gives %s" % (text, np.stack([x, y], 1)[0] - off, u[0]))
    d = scene.get_pose(ln[0])[:3, :3].dot([0, 0, -1]) * ln[0].light.intensity
    if not close(d, sp.light, 1e-6) or not close(np.asarray(scene.ambient_light)[:3], np.full(3, sp.ambient), 1e-6):
        return r.bad("pyrender light", text)
