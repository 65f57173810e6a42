"""Independent composition of a 3D scene into a 2D scene, and its derivatives (complex step / closed forms), used by C20-C24, C26."""
import numpy as np

import camref
import meshes
from dlib import Ref, dr, hashed, quat_rot, scene


def silhouette(P, F, clockwise):
    """Flags of the face edges that belong to exactly one front face."""
    a, b, c = P[F[:, 0]], P[F[:, 1]], P[F[:, 2]]
    ar = (b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (c[:, 0] - a[:, 0]) * (b[:, 1] - a[:, 1])
    vis = ar > 0 if clockwise else ar < 0
    cnt = {}
    for k, f in enumerate(F):
        for e in range(3):
            key = frozenset((int(f[e]), int(f[(e + 1) % 3])))
            cnt[key] = cnt.get(key, 0) + bool(vis[k])
    return np.array([[cnt[frozenset((int(f[e]), int(f[(e + 1) % 3])))] == 1 for e in range(3)] for f in F]), vis, ar


class Spec:
    """Content of a 3D scene. kind: 'c1','c3','c4' vertex colours with that many channels, 't1','t3' texture (with a seam),
    'u3' texture with as many uv as vertices but numbered differently, 'v3' texture with more faces corners than uv (few shared uv)."""

    def __init__(self, mesh="tetra", kind="c3", cw=False, light=None, ambient=0.25, bg="color", sigma=1.0, pc=False, ipc=True, cull=True,
                 pose=(1, 2, 3, 4), dist=None, size=(11, 9), fov=40.0, deform=0, colset=0, skew=0.0, near=1.0, unit=1.0, shift=0.0, graze=None):
        self.__dict__.update(mesh=mesh, kind=kind, cw=cw, light=light, ambient=ambient, bg=bg, sigma=sigma, pc=pc, ipc=ipc, cull=cull, pose=pose, dist=dist,
                             size=size, fov=fov, deform=deform, colset=colset, skew=skew, unit=unit)
        V, F = {**meshes.closed(), **meshes.opened()}[mesh]
        self.V = V * 1.0
        if deform:
            self.V = V * (1 + 0.125 * hashed(3, deform)) + 0.1 * hashed(V.size, deform + 3).reshape(V.shape)
        self.F = F[:, ::-1].copy() if cw else F.copy()
        n = len(V)
        self.nc = int(kind[1])
        self.textured = kind[0] in "tuv"
        self.colors = None if self.textured else 0.25 + hashed(n * self.nc, 1 + colset).reshape(n, self.nc)
        self.uv = self.faces_uv = self.texture = None
        if self.textured:
            self.uv = hashed(2 * (n + 3), 11).reshape(-1, 2) * [3.5, 4.5] - 0.25
            self.faces_uv = self.F.copy()
            if kind[0] == "t":
                self.faces_uv[0] = [n, n + 1, n + 2]  # a seam: the first face has its own uv
            elif kind[0] == "u":
                self.uv = self.uv[:n]
                self.faces_uv = (self.F + 1) % n
            else:
                self.uv = self.uv[:4]
                self.faces_uv = (self.F + np.arange(len(self.F))[:, None] * 2) % 4
            self.texture = 0.25 + hashed(4 * 5 * self.nc, 5 + colset).reshape(4, 5, self.nc) + shift
        else:
            self.colors = self.colors + shift
        if graze is not None and light is not None and np.any(light):
            # light arriving almost along the surface at one vertex, lit by 2^-11 of its intensity
            nrm = meshes.vertex_normals(self.V, self.F, cw)[graze % len(V)]
            l = np.array(light)
            t = l - nrm.dot(l) * nrm
            if np.linalg.norm(t) > 0.1:
                self.light = tuple(t - nrm * np.linalg.norm(t) * 2.0**-11)
        w, h = size
        rot = quat_rot(pose)
        c = 0.5 * (V.max(0) + V.min(0))
        rad = np.linalg.norm(V - c, axis=1).max()
        f = 0.5 * w / np.tan(0.5 * fov * np.pi / 180)
        dcam = near * (1.15 * rad / np.tan(0.5 * fov * np.pi / 180) + 0.4 * rad)
        off = np.array([0.07, -0.11, 0.0]) * rad
        self.E = np.column_stack([rot, -rot.dot(c) + [0, 0, dcam] + off])
        self.V = self.V * unit  # the unit of length
        self.E[:, 3] *= unit
        self.K = np.array([[f, skew, w / 2 + 0.13], [0, f * 1.0625, h / 2 - 0.21], [0, 0, 1]])
        self.bgval = (hashed(h * w * self.nc, 9).reshape(h, w, self.nc) - 1.0) if bg == "image" else -0.5 - np.arange(self.nc) / 9

    # ----- the code under test
    def camera(self):
        return dr.Camera(self.E.copy(), self.K.copy(), self.size[1], self.size[0], distortion=None if self.dist is None else tuple(self.dist))

    def make_mesh(self, cls=None):
        from deodr.triangulated_mesh import ColoredTriMesh
        cls = cls or ColoredTriMesh
        if self.textured:
            return cls(self.F.copy(), self.V.copy(), clockwise=self.cw, faces_uv=self.faces_uv.copy(), uv=self.uv.copy(), texture=self.texture.copy())
        return cls(self.F.copy(), self.V.copy(), clockwise=self.cw, colors=self.colors.copy())

    def make_scene(self):
        sc = dr.Scene3D(sigma=self.sigma, perspective_correct=self.pc, integer_pixel_centers=self.ipc)
        sc.set_mesh(self.make_mesh())
        sc.set_light(None if self.light is None else np.array(self.light), self.ambient)
        if self.bg == "image":
            sc.set_background_image(self.bgval.copy())
        else:
            sc.set_background_color(self.bgval.copy())
        return sc

    # ----- the reference
    def luminosity(self, V=None):
        V = self.V if V is None else V
        if self.light is None:
            return np.full(len(V), self.ambient)
        N = meshes.vertex_normals(V, self.F, self.cw)
        d = -(N * np.array(self.light)).sum(1)
        return np.where(d.real > 0, d, 0) + self.ambient

    def compose(self, mode="color", depth_scale=1.0):
        """-> (dlib scene of the code under test's 2D type, Ref)."""
        P, d = camref.project(self.V, self.E, self.K, self.dist)
        flags, vis, ar = silhouette(P, self.F, self.cw)
        self.margin = np.abs(ar).min()
        if self.sigma <= 0:
            flags = np.zeros_like(flags)
        kw = dict(width=self.size[0], height=self.size[1], edgeflags=flags, clockwise=self.cw, backface_culling=self.cull, strict_edge=True,
                  perspective_correct=self.pc, integer_pixel_centers=self.ipc)
        nf = len(self.F)
        if mode == "depth":
            kw.update(nb_colors=1, colors=d[:, None] * depth_scale, textured=np.zeros(nf, bool))
        elif self.textured:
            kw.update(nb_colors=self.nc, textured=np.ones(nf, bool), shaded=np.ones(nf, bool), texture=self.texture, uv=self.uv, faces_uv=self.faces_uv,
                      shade=self.luminosity(), colors=np.zeros((len(self.V), self.nc)))
        else:
            kw.update(nb_colors=self.nc, colors=self.colors * self.luminosity()[:, None], textured=np.zeros(nf, bool))
        if self.bg == "image":
            kw["background_image"] = self.bgval
        else:
            kw["background"] = self.bgval
        s = scene(P, self.F, d, **kw)
        return s, Ref(s, exact=False)

    def vjp_color(self, g):
        """g: gradients of the 2D scene -> dict of gradients of the 3D scene."""
        out = {}
        Lb = g["shade_b"] if self.textured else (self.colors * g["colors_b"]).sum(1)
        if self.textured:
            out["texture"] = g["texture_b"]
        else:
            out["colors"] = g["colors_b"] * self.luminosity()[:, None]
        out["ambient"] = Lb.sum()
        Vb = camref.vjp(self.V, self.E, self.K, self.dist, g["ij_b"], None)
        if self.light is not None:
            N = meshes.vertex_normals(self.V, self.F, self.cw)
            act = -(N * np.array(self.light)).sum(1) > 0
            out["light"] = -(N * (Lb * act)[:, None]).sum(0)
            Nb = -(Lb * act)[:, None] * np.array(self.light)
            for i in range(len(self.V)):
                for k in range(3):
                    W = self.V.astype(complex)
                    W[i, k] += 1e-30j
                    Vb[i, k] += (meshes.vertex_normals(W, self.F, self.cw).imag * Nb).sum() / 1e-30
        out["vertices"] = Vb
        return out

    def vjp_depth(self, g, depth_scale):
        return dict(vertices=camref.vjp(self.V, self.E, self.K, self.dist, g["ij_b"], g["colors_b"][:, 0] * depth_scale))
