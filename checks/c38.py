"""C38: adding geometry that cannot be seen and shares nothing with a mesh, at any place of the lists and beyond 16-bit counts, changes nothing for the rest."""
import contextlib
import copy
import io
import itertools

import numpy as np
import torch

import c26
import camref
import meshes
from c20 import DIST, LIGHTS, MESHES, POSES
from deodr.triangulated_mesh import ColoredTriMesh, TriMesh, loop_subdivision
from dlib import close_scaled, hashed, vb
from runner import R
from s3d import Spec

ID = "C38"
LEVEL = "exploration"
CASE_LIMIT = 300
HIDDEN = ("behind", "outside", "culled", "occluded", "unused")
PLACES = ("before", "after", "around", "split")
TYPES = (np.int64, np.uint32, np.int32, np.uint16, np.uint8, np.int16, np.uint64)
RULE = ("library meshes x orientations x poses x {vertex colours, textures with and without seams} x settings; to each, every kind of geometry that cannot be seen {behind the camera, outside the image, facing away, behind nearer faces, vertices without faces} in 1, 3 or more than 65536 elements is added "
        "{before, after, around, vertices before and faces after, original vertices spread over a list of 2**17}, with all integer types for the faces; colour, depth and deferred images, all gradients, the PyTorch scene, normals and their gradients, silhouettes, laplacian, volume and subdivision of the original part are compared with those of the mesh alone; distinct = distinct (mesh, kind, place, size) combinations per setting")
ASSUME = ["pixels at exact ties of the reference are left out, with zero adjoint", "the background of the deferred depth channel, which follows the largest depth, is left out"]
SETTINGS = [dict(sigma=s, pc=p, ipc=i, bg=b, cull=c) for s, p, i, b, c in ((1.0, False, True, "color", True), (0.0, False, False, "image", True), (2.5, False, False, "color", True), (0.0, True, True, "color", False), (1.5, True, False, "image", True), (0.0, False, True, "image", False))]


def cases(tier):
    th = tier == "thorough"
    for m, p, cw, kind in itertools.product(MESHES, range(4 if th else 2), (False, True), ("c3", "t3", "u3", "c1")):
        if not th and (p + cw + len(m) + ord(kind[0]) + ord(kind[1])) % 2:
            continue
        yield dict(mesh=m, pose=p, cw=cw, kind=kind, sizes=[1, 3], all=th)
    for m, cw, kind in itertools.product(("octa", "two", "strip5", "tetra") if th else ("two", "strip5"), (False, True), ("c3", "t3")):
        for h in HIDDEN:
            for pl in PLACES + ("spread",) if th else ("before", "split", "spread"):
                yield dict(mesh=m, pose=1, cw=cw, kind=kind, sizes=[66000], hidden=h, place=pl, all=False)


def covered(z):
    """A pixel whose neighbourhood is inside the object, and the largest depth."""
    ok = np.isfinite(z)
    n = ok.copy()
    n[:] = False
    n[2:-2, 2:-2] = ok[2:-2, 2:-2]
    for dy in range(-2, 3):
        for dx in range(-2, 3):
            n[2:-2, 2:-2] &= ok[2 + dy:z.shape[0] - 2 + dy, 2 + dx:z.shape[1] - 2 + dx]
    at = np.argwhere(n)
    return None if len(at) == 0 else tuple(at[len(at) // 2])


def extra(sp, hidden, size, pixel):
    """Vertices and faces that cannot be seen, in world coordinates."""
    R3, t = sp.E[:, :3], sp.E[:, 3]
    d = camref.project(sp.V, sp.E, sp.K, sp.dist)[1]
    mid, far = d.mean(), d.max()
    if hidden == "unused":
        cam = np.stack([hashed(size, 3) - 0.5, hashed(size, 4) - 0.5, mid + hashed(size, 5)], 1)
        return (cam - t).dot(R3), np.zeros((0, 3), dtype=int)
    tv = np.array(meshes.TETRA_V, dtype=float)
    V, F = np.array(meshes.TETRA_V, dtype=float), np.array(meshes.TETRA_F)
    if meshes.signed_volume(V, F) < 0:
        F = F[:, ::-1]
    per = 3 if hidden == "culled" else 4
    k = max(1, -(-size // per) if size > 3 else size)
    x = [hashed(k, 11 + i) for i in range(3)]
    if hidden == "culled":
        # large triangles in front of the object, facing away; orientation decided below
        tri = np.array([[-1.0, -1, 1], [1, -1, 1.125], [0.125, 1.5, 0.875]]) * mid * 0.5
        cam = (tri[None] * (0.5 + 0.125 * x[0][:, None, None])).reshape(-1, 3)
        F = np.arange(3 * k).reshape(k, 3)
        P = camref.project((tri - t).dot(R3), sp.E, sp.K, sp.dist)[0]
        a = (P[1, 0] - P[0, 0]) * (P[2, 1] - P[0, 1]) - (P[1, 1] - P[0, 1]) * (P[2, 0] - P[0, 0])
        if (a > 0) == sp.cw:
            F = F[:, ::-1]
        return (cam - t).dot(R3), F
    if hidden == "behind":
        c = np.stack([(x[0] - 0.5) * mid, (x[1] - 0.5) * mid, -mid * (0.5 + x[2])], 1)
        s = 0.25 * mid
    elif hidden == "outside":
        c = np.stack([mid * (50 + 9 * x[0]), (x[1] - 0.5) * mid, mid * (1 + 0.25 * x[2])], 1)
        s = 0.25 * mid
    else:
        y0, x0 = pixel
        o = 0 if sp.ipc else 0.5
        ray = np.linalg.inv(sp.K).dot([x0 + o, y0 + o, 1.0])
        z = far * (1.5 + 0.25 * x[2])
        c = ray[None] * z[:, None]
        s = 0.02 * far / sp.K[0, 0] * 20
    cam = (c[:, None] + s * (tv - tv.mean(0))[None]).reshape(-1, 3)
    F = (F[None] + 4 * np.arange(k)[:, None, None]).reshape(-1, 3)
    if sp.cw:
        F = F[:, ::-1]
    return (cam - t).dot(R3), F


def spread(sp, hidden, pixel):
    """The original vertices at multiples of a large power of two in a mesh of 2**17 vertices."""
    V2, F2 = extra(sp, hidden, 999, pixel)
    n, N = len(sp.V), 2 ** 17
    step = N >> int(np.ceil(np.log2(n)))
    V2 = np.concatenate([V2, extra(sp, "unused", N - n - len(V2), pixel)[0]])
    at = np.arange(n) * step
    rest = np.setdiff1d(np.arange(N), at)
    q = copy.copy(sp)
    q.V = np.zeros((N, 3))
    q.V[at], q.V[rest] = sp.V, V2
    q.F = np.concatenate([at[sp.F], rest[F2].reshape(-1, 3)])
    if sp.textured:
        q.uv = np.concatenate([sp.uv, hashed(12, 15).reshape(-1, 2)])
        q.faces_uv = np.concatenate([sp.faces_uv, len(sp.uv) + F2 % 6])
        q.uv_at = slice(0, len(sp.uv))
    else:
        q.colors = np.full((N, sp.nc), 2.0)
        q.colors[at] = sp.colors
    return q, slice(0, n * step, step), slice(0, len(sp.F))


def union(sp, hidden, size, place, pixel):
    """-> Spec of the larger mesh, position of the original vertices and faces in it."""
    if place == "spread":
        return spread(sp, hidden, pixel)
    V2, F2 = extra(sp, hidden, size, pixel)
    n, m, f, g = len(sp.V), len(V2), len(sp.F), len(F2)
    av = {"before": m, "after": 0, "around": m // 2, "split": m}[place]  # added vertices before the original ones
    af = {"before": g, "after": 0, "around": g // 2, "split": 0}[place]
    q = copy.copy(sp)

    def put(a, b, k):
        return np.concatenate([b[:k], a, b[k:]])
    q.V = put(sp.V, V2, av)
    vb_, vo = np.where(np.arange(m) < av, np.arange(m), np.arange(m) + n), av
    q.F = put(sp.F + vo, vb_[F2].reshape(-1, 3), af)
    if sp.textured:
        u = hashed(2 * max(m, 3), 15).reshape(-1, 2) * 3
        k = {"before": len(u), "after": 0, "around": len(u) // 2, "split": 0}[place]
        q.uv = put(sp.uv, u, k)
        ut = np.where(np.arange(len(u)) < k, np.arange(len(u)), np.arange(len(u)) + len(sp.uv))
        q.faces_uv = put(sp.faces_uv + k, ut[(F2 + 1) % len(u)].reshape(-1, 3), af)
        q.uv_at = slice(k, k + len(sp.uv))
    else:
        q.colors = put(sp.colors, 2 + hashed(m * sp.nc, 17).reshape(m, sp.nc), av)
    return q, slice(vo, vo + n), slice(af, af + f)


def results(sp, adj, dadj, backward, tpart, deferred=True):
    """Everything rendered from a mesh; arrays per vertex and per face are returned whole."""
    out = {}
    sc, cam = sp.make_scene(), sp.camera()
    img, z = sc.render(cam, return_z_buffer=True, backface_culling=sp.cull)
    out["image"], out["z-buffer"] = img, z
    if backward:
        sc.clear_gradients()
        sc.render_backward(adj.copy())
        out["v:vertices"] = np.array(vb(sc.mesh))
        out["ambient"] = np.array(sc.light_ambient_b)
        if sp.light is not None:
            out["light"] = np.array(sc.light_directional_b)
        if sp.textured:
            out["texture"] = np.array(sc.scene_2d.texture_b)
            out["t:uv"] = np.array(sc.scene_2d.uv_b)
        else:
            out["v:colors"] = np.array(sc.mesh.vertices_colors_b)
    bg = sp.bgval[..., :1]
    sd = sp.make_scene()
    (sd.set_background_image if sp.bg == "image" else sd.set_background_color)(np.array(bg))
    out["depth"] = sd.render_depth(cam, depth_scale=0.375, backface_culling=sp.cull)
    if backward:
        sd.clear_gradients()
        sd.render_depth_backward(dadj.copy())
        out["v:depth vertices"] = np.array(vb(sd.mesh))
    if deferred:
        s0 = copy.copy(sp)
        s0.sigma = 0.0
        for k, v in s0.make_scene().render_deferred(cam, depth_scale=0.375, backface_culling=sp.cull).items():
            out["d:" + k] = np.asarray(v)
    if tpart:
        s, tc, leaf = c26.torch_scene(sp)
        ti = s.render(tc, backface_culling=sp.cull)
        out["torch image"] = ti.detach().numpy()
        if backward:
            (ti * torch.tensor(adj)).sum().backward()
            for k, x in leaf.items():
                g = np.zeros(x.shape) if x.grad is None else x.grad.numpy()
                out[("v:torch " if k in ("vertices", "colors") else "torch ") + k] = g
    m = TriMesh(sp.F.copy(), sp.V.copy(), clockwise=sp.cw)
    out["f:face normals"] = np.array(m.face_normals)
    out["v:vertex normals"] = np.array(m.vertex_normals) if sp.alone else None
    P = camref.project(sp.V, sp.E, sp.K, sp.dist)[0]
    out["f:silhouette"] = np.array(m.edge_on_silhouette(P)).astype(float)
    if sp.alone:
        nb = hashed(len(sp.V) * 3, 23).reshape(-1, 3) * 0
        nb[sp.vat] = hashed(sp.nb * 3, 25).reshape(-1, 3) - 0.5
        m.compute_vertex_normals_backward(nb)
        out["v:normals gradient"] = np.array(vb(m))
        out["laplacian"] = m.adjacencies.laplacian.tocsr()[sp.vat][:, sp.vat].toarray()
        own = np.zeros(len(sp.V), dtype=bool)
        own[sp.vat] = True
        out["boundary edges"] = int(own[m.adjacencies.boundary_edges()].all(axis=1).sum())
    return out


def triangles(m):
    """Sorted triangles of a mesh as corner positions and colours."""
    c = np.asarray(m.vertices)[np.asarray(m.faces)].reshape(-1, 9)
    k = np.asarray(m.vertices_colors)[np.asarray(m.faces)].reshape(len(c), -1)
    c = np.column_stack((c, k))
    return c[np.lexsort(np.round(c, 6).T[::-1])]


def shape_ops(r, sp, q, hidden, text):
    """Volume and subdivision of disjoint unions."""
    if hidden == "unused" or len(q.V) > 1000:
        return
    if sp.mesh in meshes.closed() and hidden != "culled":
        v = [TriMesh(x.F.copy(), x.V.copy(), clockwise=x.cw).compute_volume() for x in (sp, q)]
        keep = np.ones(len(q.F), dtype=bool)
        keep[q.fat] = False
        V2 = meshes.signed_volume(q.V, q.F[keep]) * (-1 if sp.cw else 1)
        if not abs(v[1] - v[0] - V2) <= 1e-6 * (1 + abs(v[1])) and not abs(abs(v[1]) - abs(v[0]) - abs(V2)) <= 1e-6 * (1 + abs(v[1])):
            r.bad("volume", "%s: the volume of the union is %s, that of the parts %s and %s" % (text, v[1], v[0], V2))
            return
    if not sp.textured:
        a, b = [ColoredTriMesh(x.F.copy(), x.V.copy(), clockwise=x.cw, colors=x.colors.copy()) for x in (sp, q)]
        keep = np.ones(len(q.F), dtype=bool)
        keep[q.fat] = False
        ids, inv = np.unique(q.F[keep], return_inverse=True)
        c = ColoredTriMesh(inv.reshape(-1, 3), q.V[ids], clockwise=q.cw, colors=q.colors[ids])
        got = triangles(loop_subdivision(b, 1))
        want = np.concatenate([triangles(loop_subdivision(x, 1)) for x in (a, c)])
        want = want[np.lexsort(np.round(want, 6).T[::-1])]
        if got.shape != want.shape or not close_scaled(got, want, 1 + np.abs(want).max(), 1e-7):
            r.bad("subdivision", "%s: the subdivision of the union is not the union of the subdivisions" % text)


def check(case):
    r = R()
    r.n = 0
    j = sum(map(ord, case["mesh"] + case["kind"])) + case["pose"] * 5 + case["cw"]
    big = case["sizes"][0] > 3
    for i, st in enumerate(SETTINGS):
        if not case["all"] and (i + j) % len(SETTINGS) not in ((0, 2) if big else (0, 2, 4) if j % 2 else (0, 3, 5)):
            continue
        if big and (i + j + len(case["hidden"])) % 2 and not case["all"]:
            continue
        light, amb = LIGHTS[(i + i // 4 + j) % 4]
        sp = Spec(mesh=case["mesh"], kind=case["kind"], cw=case["cw"], light=light, ambient=amb, pose=POSES[case["pose"]], dist=DIST[(i // 3 + j) % 2] if not big else None, size=((15, 13), (12, 16))[(i // 7 + j) % 2], deform=1, **st)
        ref = sp.compose()[1]
        if sp.margin < 1e-7:
            continue
        _, zr, _, am = ref.render(sp.sigma)
        am |= sp.compose("depth", 0.375)[1].render(sp.sigma)[3] if sp.bg == "color" else 0
        ok = am == 0
        h, w = am.shape
        adj = (hashed(h * w * sp.nc, 5).reshape(h, w, sp.nc) - 0.375) * ok[..., None]
        dadj = (hashed(h * w, 6).reshape(h, w, 1) - 0.375) * ok[..., None]
        backward = sp.cull and not sp.pc
        pixel = covered(zr)
        base = {}
        for hidden in HIDDEN if "hidden" not in case else (case["hidden"],):
            if (hidden == "occluded" and pixel is None) or (hidden == "culled" and not sp.cull):
                continue
            alone = hidden != "unused"  # normals of vertices without faces are not defined
            sp.nb = len(sp.V)
            sp.alone, sp.vat, sp.fat = alone, slice(0, len(sp.V)), slice(0, len(sp.F))
            tpart = True
            if alone not in base:
                base[alone] = results(sp, adj, dadj, backward, tpart)
            for place in PLACES if "place" not in case else (case["place"],):
                for size in case["sizes"]:
                    q, vat, fat = union(sp, hidden, size, place, pixel)
                    q.alone, q.vat, q.fat = alone, vat, fat
                    d = TYPES[(r.n + j) % (3 if big else len(TYPES))]
                    q.F = q.F.astype(d)
                    if sp.textured:
                        q.faces_uv = q.faces_uv.astype(d)
                    text = "%s %s: %d vertices, %d faces (%s) %s added %s" % (case, st, len(q.V) - len(sp.V), len(q.F) - len(sp.F), np.dtype(d), hidden, place)
                    r.n += 1
                    r.key(case["mesh"], case["cw"], case["kind"], hidden, place, size, i)
                    compare(r, base[alone], results(q, adj, dadj, backward, tpart), sp, q, ok, zr, text)
                    if not r.msgs:
                        shape_ops(r, sp, q, hidden, text)
                    if r.msgs:
                        return r
    return r


def compare(r, a, b, sp, q, ok, zr, text):
    cov = ok & np.isfinite(zr)
    for k, x in a.items():
        y = b.get(k)
        if x is None:
            continue
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        hid = None
        if k[:2] in ("v:", "f:", "t:"):
            at = {"v": q.vat, "f": q.fat, "t": getattr(q, "uv_at", None)}[k[0]]
            hid = np.ones(len(y), dtype=bool)
            hid[at] = False
            rest, y = y[hid], y[at]
            if k not in ("f:face normals", "v:vertex normals", "f:silhouette", "v:normals gradient") and np.nan_to_num(np.abs(rest), nan=1).max(initial=0) != 0:
                r.bad("hidden " + k[2:], "%s: hidden elements have the gradient %s" % (text, np.abs(rest).max()))
                return
        elif k in ("image", "z-buffer", "depth", "torch image"):
            x, y = x[ok], y[ok]
        elif k[:2] == "d:":
            m = cov if k in ("d:depth", "d:face_id") else ok
            x, y = x[m], y[m]
            if k == "d:face_id":
                y = y - q.fat.start
        good = x.shape == y.shape and (np.isfinite(x) == np.isfinite(y)).all()
        if good:
            x, y = np.where(np.isfinite(x), x, 0), np.where(np.isfinite(y), y, 0)
            good = close_scaled(y, x, 1 + np.abs(x).max(initial=0), 1e-8)
        if not good:
            r.bad(k[2:] if k[1:2] == ":" else k, "%s: %s changes from %s to %s" % (text, k, x.ravel()[:9], y.ravel()[:9]))
            return
