"""C43: a scene made of independent parts shows, and gives the gradients of, each part alone, whatever their number."""
import copy
import itertools
import os
import tempfile

import numpy as np

import meshes
from dlib import close_scaled, dr, hashed, scene, vb
from runner import R

ID = "C43"
LEVEL = "exploration"
RULE = ("2D: every word of 2 (quick) or 3 (thorough) cells out of eight scenes of one tile {coloured, textured, overlapping, sharing an edge, back-facing, without antialiasing, empty} x layouts {row, column, block} x orders of the faces and of the vertices, and the de Bruijn words of order 3 repeated until vertices, faces, width or height pass 2^8, 2^15, 2^16 and 2^17, "
        "textures placed inside textures of up to 70000 texels a side: image, z-buffer, residual and all gradients of every tile against the cell alone; "
        "3D: every ordered pair of library meshes and repetitions beyond 2^16 vertices: predicates, edges, boundary, normals and their adjoints, silhouettes, Laplacian, rigid energy and its gradient, volume, subdivision and OBJ files against those of the meshes alone; a mesh after or before up to 70000 vertices out of sight rendered in colour, depth, deferred and by PyTorch; distinct = distinct (word, layout)")
ASSUME = ["cells are antialiased within their tile (sigma at most 1)", "pixel centres on an edge in one cell only, whose coordinates are integers", "with the residual, the gradients of untextured cells are left to C07 and C11"]
TW, TH = 8, 7
LAYOUTS = ("row", "column", "block")


def cell(k):
    """-> dict of arrays of one tile: ij, depths, faces, colors (3 channels), textured, shaded, uv, shade, edgeflags."""
    P = {0: [(1.53125, 1.5625), (6.28125, 2.34375), (2.71875, 5.40625)],
         1: [(1.59375, 5.28125), (5.65625, 5.34375), (4.21875, 1.53125)],
         2: [(1.53125, 2.0625), (6.21875, 1.65625), (3.84375, 5.28125), (1.71875, 4.65625), (5.90625, 4.71875), (3.28125, 1.59375)],
         3: [(1.65625, 1.71875), (3.40625, 1.84375), (1.71875, 5.21875), (2.40625, 5.15625), (6.34375, 5.21875), (4.15625, 1.59375)],
         4: [(2.09375, 1.53125), (6.15625, 3.09375), (1.84375, 5.34375), (2.59375, 1.96875), (6.03125, 4.28125), (3.46875, 5.03125)],
         5: [(2, 2), (6, 2), (3, 5)],  # vertices and an edge on pixel centres
         6: [(1.65625, 1.59375), (6.03125, 1.90625), (1.96875, 5.21875), (6.21875, 5.09375)],
         7: []}[k]
    F = {0: [(0, 1, 2)], 1: [(0, 1, 2)], 2: [(0, 1, 2), (3, 4, 5)], 3: [(0, 1, 2), (3, 4, 5)], 4: [(0, 1, 2), (3, 5, 4)], 5: [(0, 1, 2)], 6: [(0, 1, 2), (2, 1, 3)], 7: []}[k]
    tex = {0: [0], 1: [1], 2: [1, 0], 3: [1, 0], 4: [0, 1], 5: [0], 6: [1, 1], 7: []}[k]
    flags = {5: 0, 6: [(1, 0, 1), (0, 1, 1)]}.get(k, 1)
    P = np.array(P, dtype=float).reshape(-1, 2) + (0 if k == 5 else 1 / 900)  # values that single precision does not hold
    n = len(P)
    F = np.array(F, dtype=int).reshape(-1, 3)
    # front faces are those of negative area in the image, except the second one of cell 4
    for i, f in enumerate(F):
        a, b, c = P[f]
        area = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
        if (area > 0) != (k == 4 and i == 1):
            F[i] = f[::-1]
    e = np.ones((len(F), 3), dtype=bool) if k == 7 or np.ndim(flags) < 2 else np.array(flags, dtype=bool)
    if k == 5:
        e[:] = False
    if k == 6:
        e = np.array([[{int(f[j]), int(f[(j + 1) % 3])} != {1, 2} for j in range(3)] for f in F])
    depths = 1 + hashed(n, 20 + k) * 0.25 + (np.arange(n) // 3) * 0.5
    if k == 3:
        depths = np.array([1.25, 1.5, 1.75, 1.5, 1.5, 1.5])  # triangles of the same mean depth
    if k == 6:
        depths[:] = 1.5  # parallel to the image
    return dict(ij=P, depths=depths, faces=F, colors=0.25 + hashed(3 * n, 30 + k).reshape(n, 3), textured=np.array(tex, dtype=bool),
                shaded=np.array(tex, dtype=bool) & (k != 3), uv=0.25 + hashed(2 * n, 40 + k).reshape(n, 2) * [3.0, 2.0], shade=0.5 + hashed(n, 50 + k), edgeflags=e)


CELLS = [cell(k) for k in range(8)]
TEX = 0.25 + hashed(4 * 5 * 3, 5).reshape(4, 5, 3)


def debruijn(k, n):
    a = [0] * k * n
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out


def layout(kind, n):
    if kind == "row":
        return n, 1
    if kind == "column":
        return 1, n
    c = int(np.ceil(np.sqrt(n)))
    return c, -(-n // c)


def mosaic(word, kind, order, texat, nc, flags):
    """-> Scene2D, list of (first vertex, count) per cell in numbering order, offsets."""
    cols, rows = layout(kind, len(word))
    seq = list(range(len(word)))
    if order & 1:
        seq = seq[::-1]
    start, parts, faces = {}, [], {}
    nv = 0
    for i in seq:
        start[i] = nv
        nv += len(CELLS[word[i]]["ij"])
    fseq = seq[::-1] if order & 2 else seq
    offs = np.array([((i % cols) * TW, (i // cols) * TH) for i in range(len(word))], dtype=float).reshape(-1, 2)
    cat = lambda name, s: np.concatenate([CELLS[word[i]][name] for i in s])  # noqa: E731
    ij = np.concatenate([CELLS[word[i]]["ij"] + offs[i] for i in seq])
    F = np.concatenate([CELLS[word[i]]["faces"] + start[i] for i in fseq])
    (th, tw), (oy, ox) = texat
    T = np.zeros((th, tw, nc))
    T[:, :] = -3.0
    T[oy:oy + 4, ox:ox + 5] = TEX[..., :nc]
    s = scene(ij, F, cat("depths", seq), width=cols * TW, height=rows * TH, nb_colors=nc, colors=cat("colors", seq)[:, :nc], textured=cat("textured", fseq), shaded=cat("shaded", fseq),
              uv=cat("uv", seq) + [ox, oy], shade=cat("shade", seq), texture=T, edgeflags=cat("edgeflags", fseq), background=-0.5 - np.arange(nc) / 9, **flags)
    return s, start, offs


def render(s, sigma, aa, adj, obs):
    if aa:
        img, z, err = s.render_error(obs, sigma)
        s.clear_gradients()
        s.render_error_backward(adj[..., 0].copy())
    else:
        img, z = s.render(sigma)
        err = None
        s.clear_gradients()
        s.render_backward(adj.copy())
    return img, z, err


FLAGSETS = [dict(), dict(integer_pixel_centers=False), dict(strict_edge=False)]
TEXAT = [((4, 5), (0, 0)), ((11, 9), (3, 2)), ((4, 40000), (0, 33000)), ((70000, 5), (66000, 0)), ((300, 300), (280, 290))]
ALONE = {}


def alone(k, sigma, aa, nc, fl):
    key = (k, sigma, aa, nc, fl)
    if key not in ALONE:
        s, _, _ = mosaic([k], "row", 0, TEXAT[1], nc, FLAGSETS[fl])
        adj = cell_adj(k, nc)
        img, z, err = render(s, sigma, aa, adj, cell_obs(k, nc))
        ALONE[key] = img, z, err, {n: getattr(s, n).copy() for n in ("ij_b", "colors_b", "shade_b", "uv_b")}, s.texture_b[3:7, 2:7].copy()
    return ALONE[key]


def cell_adj(k, nc):
    return np.ascontiguousarray((hashed(TW * TH * 3, 60 + k) - 0.375).reshape(TH, TW, 3)[..., :nc])


def cell_obs(k, nc):
    return np.ascontiguousarray(hashed(TW * TH * 3, 70 + k).reshape(TH, TW, 3)[..., :nc])


def compare(r, word, kind, order, sigma, aa, nc, fl, texat, text):
    s, start, offs = mosaic(word, kind, order, texat, nc, FLAGSETS[fl])
    cols, rows = layout(kind, len(word))
    scale = np.array([(1.0, -0.5, 2.0)[(i + i // 3) % 3] for i in range(cols * rows)])
    full = list(word) + [7] * (cols * rows - len(word))

    def tiles(per, mul=None):
        t = np.array([per[k] for k in full])
        if mul is not None:
            t = t * mul.reshape(-1, *[1] * (t.ndim - 1))
        return np.ascontiguousarray(t.reshape(rows, cols, *t.shape[1:]).swapaxes(1, 2).reshape(rows * TH, cols * TW, *t.shape[3:]))

    kinds = sorted(set(full))
    adj = tiles({k: cell_adj(k, nc) for k in kinds}, scale)
    obs = tiles({k: cell_obs(k, nc) for k in kinds})
    img, z, err = render(s, sigma, aa, adj, obs)
    one = {k: alone(k, sigma, aa, nc, fl) for k in kinds}
    r.n += len(word)
    r.key(tuple(word[:9]), len(word), kind, order, texat)
    tol = 1e-7 if max(s.width, s.height, *s.texture.shape[:2]) < 1000 else 1e-5
    for n, got, i in (("image", img, 0), ("z_buffer", z, 1), ("residual", err, 2)):
        if got is None:
            continue
        want = tiles({k: one[k][i] for k in kinds})
        same = np.isclose(got, want, rtol=tol, atol=tol)
        if got.shape != want.shape or not same.all():
            y, x = np.argwhere(~same.reshape(*want.shape[:2], -1).all(2))[0]
            t = (y // TH) * cols + x // TW
            r.bad(n, "%s: %s of tile %d (cell %d) at pixel (%d, %d) is %s, alone it is %s" % (text, n, t, full[t], x, y, got[y, x], want[y, x]))
            return
    for n in ("ij_b", "colors_b", "shade_b", "uv_b"):
        got = getattr(s, n)
        want = np.zeros_like(got)
        for i, k in enumerate(word):
            m = len(CELLS[k]["ij"])
            want[start[i]:start[i] + m] = one[k][3][n] * scale[i]
            if aa and not CELLS[k]["textured"].all():
                # the gradients of untextured edges in the residual are those recorded for C07, C11 and C31
                want[start[i]:start[i] + m] = got[start[i]:start[i] + m]
        m = 1 + np.abs(want).max(initial=0)
        if not close_scaled(got, want, m, 20 * tol):
            bad = np.argwhere(~(np.abs(got - want) <= 20 * tol * m))[0]
            r.bad(n, "%s: %s of vertex %d is %s, alone it is %s" % (text, n, bad[0], got[bad[0]], want[bad[0]]))
            return
    tb = np.zeros_like(s.texture)
    (oy, ox) = texat[1]
    tb[oy:oy + 4, ox:ox + 5] = sum(one[k][4] * scale[i] for i, k in enumerate(word))
    m = 1 + sum(np.abs(one[k][4]).max() * abs(scale[i]) for i, k in enumerate(word))
    if s.texture_b.shape != tb.shape or not close_scaled(s.texture_b, tb, m, 20 * tol):
        r.bad("texture_b", "%s: the gradient of the texture is not the sum of those of the cells" % text)


# ----- meshes
def union(list_of_meshes, step=(40.0, 0.0, 0.0)):
    V, F, at = [], [], []
    n = 0
    for i, (v, f) in enumerate(list_of_meshes):
        V.append(v + np.array(step) * (i % 8) + [0, 40.0 * ((i // 8) % 8), 0])
        F.append(f + n)
        at.append(n)
        n += len(v)
    return np.concatenate(V), np.concatenate(F), at


def facts(V, F):
    """Everything derived from a mesh, as plain arrays indexed by vertices and faces."""
    from deodr.triangulated_mesh import ColoredTriMesh
    m = ColoredTriMesh(F.copy(), V.copy(), colors=hashed(len(V) * 3, 4).reshape(-1, 3))
    a = m.adjacencies
    out = dict(m=m, a=a)
    E = np.asarray(a.edges)
    out["faces_edges"] = np.sort(E[np.asarray(a.faces_edges)], axis=2)
    out["boundary"] = {tuple(sorted(int(x) for x in e)) for e in np.asarray(a.boundary_edges())}
    out["laplacian"] = a.laplacian.tocsr()
    out["adjacency"] = a.adjacency_vertices.tocsr()
    out["degree"] = np.asarray(a.degree_v_e).ravel()
    out["normals"] = np.asarray(m.vertex_normals)
    out["face_normals"] = np.asarray(m.face_normals)
    return out


def pattern(v):
    """Displacements and adjoints, the same for every copy of a mesh."""
    return (hashed(v.size, 8) - 0.5).reshape(v.shape)


def mesh_case(r, names, text, deep=True):
    lib = {**meshes.closed(), **meshes.opened()}
    ms = [lib[n] for n in names]
    V, F, at = union(ms)
    big = facts(V, F)
    r.n += len(names)
    r.key(text)
    single = {n: facts(*lib[n]) for n in set(names)}
    a = big["a"]

    def bad(sig, what):
        r.bad("mesh " + sig, "%s: %s" % (text, what))

    man = all(bool(single[n]["a"].is_manifold) for n in single)
    clo = all(bool(single[n]["a"].is_closed) for n in single)
    if bool(a.is_manifold) != man or bool(a.is_closed) != clo:
        bad("predicates", "manifold %s closed %s, the parts say %s %s" % (a.is_manifold, a.is_closed, man, clo))
    if a.nb_edges != sum(single[n]["a"].nb_edges for n in names):
        return bad("edges", "%d edges" % a.nb_edges)
    if big["boundary"] != {(x + o, y + o) for o, n in zip(at, names) for x, y in single[n]["boundary"]}:
        return bad("boundary", "the boundary edges are not those of the parts")
    flat = lambda v: v[:, :2] * [1, 1.25] + v[:, 2:] * [0.375, -0.25]  # noqa: E731
    sil = np.asarray(big["m"].edge_on_silhouette(flat(V)))
    vbig = backward(big["m"], np.concatenate([pattern(v) for v, _ in ms]))
    refs = {n: (np.asarray(single[n]["m"].edge_on_silhouette(flat(lib[n][0]))), backward(single[n]["m"], pattern(lib[n][0]))) for n in single}
    L, A = big["laplacian"], big["adjacency"]
    if L.nnz != sum(single[n]["laplacian"].nnz for n in names) or A.nnz != sum(single[n]["adjacency"].nnz for n in names):
        return bad("matrices", "%d and %d entries" % (L.nnz, A.nnz))
    blk = range(len(names)) if len(names) < 400 else list(range(0, len(names), max(1, len(names) // 150))) + [len(names) - 1]
    fat = np.cumsum([0] + [len(f) for _, f in ms])
    for i in range(len(names)):
        v, f = ms[i]
        o, k, n = at[i], names[i], len(v)
        sl, fs = slice(o, o + n), slice(fat[i], fat[i + 1])
        s = single[k]
        for sig, x, y, tol in (("faces_edges", big["faces_edges"][fs] - o, s["faces_edges"], 0), ("normals", big["normals"][sl], s["normals"], 1e-9), ("face normals", big["face_normals"][fs], s["face_normals"], 1e-9),
                               ("degree", big["degree"][sl], s["degree"], 0), ("silhouette", sil[fs], refs[k][0], 0), ("normals adjoint", vbig[sl], refs[k][1], 1e-9)):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or not np.allclose(x.astype(float), y.astype(float), atol=tol, rtol=tol):
                return bad(sig, "those of part %d (%s, from vertex %d) differ from those of the mesh alone" % (i, k, o))
    for i in blk:
        o, k, n = at[i], names[i], len(ms[i][0])
        for sig, x, y in (("laplacian", L, single[k]["laplacian"]), ("adjacency", A, single[k]["adjacency"])):
            if not np.array_equal(x[o:o + n, o:o + n].toarray(), y.toarray()):
                return bad(sig, "block of part %d (%s, from vertex %d)" % (i, k, o))
    if clo:
        vol = sum(single[n]["m"].compute_volume() for n in names)
        if abs(big["m"].compute_volume() - vol) > 1e-7 * (1 + abs(vol)) * (1 if len(names) < 100 else 1000):
            bad("volume", "%r, the parts sum to %r" % (big["m"].compute_volume(), vol))
    if deep:
        sub = big["m"].subdivise(1)
        tri = np.asarray(sub.vertices)[np.asarray(sub.faces)]
        key = lambda T: sorted(np.round(np.sort(T.reshape(len(T), 3, 3).sum(1), axis=1), 6).tolist()) if len(T) else []  # noqa: E731
        want = []
        base = {n: np.asarray(single[n]["m"].subdivise(1).vertices)[np.asarray(single[n]["m"].subdivise(1).faces)] for n in single}
        for i, n in enumerate(names):
            want.append(base[n] + (V[at[i]] - ms[i][0][0]))
        if not np.allclose(np.array(key(tri)), np.array(key(np.concatenate(want))), atol=1e-5):
            bad("subdivision", "the triangles are not those of the subdivided parts")
    from deodr.obj import read_obj, save_obj
    fd, path = tempfile.mkstemp(suffix=".obj")
    os.close(fd)
    try:
        save_obj(path, V, F)
        f2, v2 = read_obj(path)
    finally:
        os.remove(path)
    if not np.array_equal(f2, F) or not np.allclose(v2, V, atol=1e-6):
        bad("obj", "not the same after writing and reading")


def backward(m, nb):
    m.set_vertices(np.array(m.vertices))
    m.compute_vertex_normals()
    m.compute_vertex_normals_backward(nb.copy())
    return vb(m).copy()


# ----- scenes with parts out of sight
def hide(sp, copies, first):
    """The scene with copies of an octahedron beside the view, numbered before or after the mesh."""
    V, F = meshes.closed()["octa"]
    if sp.cw:
        F = F[:, ::-1]
    z = (sp.V.dot(sp.E[:, :3].T) + sp.E[:, 3])[:, 2]
    rad = np.abs(sp.V).max()
    n, nf = len(V), len(F)
    W = np.concatenate([V * rad * 0.01 + [rad * (60 + 0.03 * (i % 97)), rad * 0.03 * (i // 97), 0] for i in range(copies)])
    W[:, 2] += z.min() * 0.5 + z.max() * 0.5
    W = (W - sp.E[:, 3]).dot(sp.E[:, :3])
    G = np.concatenate([F + i * n for i in range(copies)])
    q = copy.copy(sp)
    q.own_faces = len(sp.F)
    m = len(sp.V)
    at = (len(W), len(G)) if first else (0, 0)
    q.V = np.concatenate((W, sp.V) if first else (sp.V, W))
    q.F = np.concatenate((G, sp.F + len(W)) if first else (sp.F, G + m))
    if sp.textured:
        g = np.broadcast_to(np.array([2, 0, 1]), G.shape)
        q.faces_uv = np.concatenate((g, sp.faces_uv) if first else (sp.faces_uv, g))
    else:
        c = np.full((len(W), sp.nc), 0.7)
        q.colors = np.concatenate((c, sp.colors) if first else (sp.colors, c))
    return q, slice(at[0], at[0] + m)


def everything(sp, sl, mode):
    """Image, buffers and gradients of the part of the vertices in a slice, and whether those of the others are zero."""
    out = {}
    if mode == "torch":
        import torch
        from c26 import torch_scene
        s, cam, leaf = torch_scene(sp)
        img, z = s.render(cam, return_z_buffer=True)
        adj = torch.tensor((hashed(img.numel(), 3) - 0.25).reshape(img.shape))
        (img * adj).sum().backward()
        out["image"], out["z"] = img.detach().numpy(), np.asarray(z)
        g = {k: v.grad.numpy() for k, v in leaf.items()}
    else:
        s, cam = sp.make_scene(), sp.camera()
        if mode == "deferred":
            s.sigma = 0.0
            d = s.render_deferred(cam, depth_scale=0.25)
            d = {k: np.asarray(v, dtype=float) for k, v in d.items()}
            if sl.start:  # number of the face in the mesh
                d["face_id"] = d["face_id"] - np.where(d["luminosity"] > 0, len(sp.F) - sp.own_faces, 0)
            return d, True
        if mode == "depth":
            out["image"] = s.render_depth(cam, depth_scale=0.5)
        else:
            out["image"], out["z"] = s.render(cam, return_z_buffer=True)
        s.clear_gradients()
        adj = (hashed(out["image"].size, 3) - 0.25).reshape(out["image"].shape)
        if mode == "depth":
            s.render_depth_backward(adj)
            g = dict(vertices=vb(s.mesh))
        else:
            s.render_backward(adj)
            g = dict(vertices=vb(s.mesh), ambient=s.light_ambient_b)
            if sp.light is not None:
                g["light"] = s.light_directional_b
            g["texture" if sp.textured else "colors"] = s.scene_2d.texture_b if sp.textured else s.mesh.vertices_colors_b
    zero = True
    for k, v in g.items():
        v = np.asarray(v)
        if k in ("vertices", "colors"):
            rest = np.ones(len(v), bool)
            rest[sl] = False
            zero = zero and not v[rest].any()
            v = v[sl]
        out["gradient of " + k] = v
    return out, zero


def hidden_case(r, case):
    from s3d import Spec
    for i, (kind, cw, first) in enumerate(itertools.product(("c3", "t3", "depth", "deferred", "torch c1", "torch t3"), (False, True), (False, True))):
        mode = kind.split()[0] if kind[0] != "c" and kind[0] != "t" or kind.startswith("torch") else "color"
        sp = Spec(mesh=case["mesh"], kind="c1" if kind == "depth" else "c3" if kind == "deferred" else kind.split()[-1], cw=cw, light=(0.25, -0.5, -0.75) if i % 3 else None, ambient=0.3,
                  pose=((1, 2, 3, 4), (-3, 1, 0.5, 2))[i // 2 % 2], sigma=0.75, size=(9, 8), bg=("color", "image")[i // 4 % 2 if mode != "deferred" else 0])
        want, _ = everything(sp, slice(0, len(sp.V)), mode)
        for copies in case["copies"]:
            q, sl = hide(sp, copies, first)
            got, zero = everything(q, sl, mode)
            r.n += 1
            text = "%s %s clockwise=%s with %d octahedra out of sight %s it" % (case["mesh"], kind, cw, copies, "before" if first else "after")
            r.key(text)
            if not zero:
                r.bad("hidden gradient", "%s: gradients of vertices out of sight" % text)
            for k, w in want.items():
                g = got[k]
                f = lambda x: np.where(np.isinf(x), 9e9, x)  # noqa: E731
                if np.shape(g) != np.shape(w) or not close_scaled(f(np.asarray(g, dtype=float)), f(np.asarray(w, dtype=float)), 1 + np.abs(w[np.isfinite(w)]).max(initial=0) if np.ndim(w) else 1 + abs(w), 1e-9):
                    r.bad("hidden " + k, "%s: %s is not that of the mesh alone" % (text, k))
            if r.msgs:
                return


def cases(tier):
    n = 2 if tier == "quick" else 3
    for a in range(8):
        for lay in LAYOUTS:
            yield dict(part="words", first=a, n=n, layout=lay)
    for lay, reps, order in itertools.product(LAYOUTS, (1, 17), range(4)):
        yield dict(part="long", layout=lay, reps=reps, order=order, at=TEXAT[(reps + order) % 5])
    for i, at in enumerate(TEXAT):
        yield dict(part="long", layout=LAYOUTS[i % 3], reps=1, order=i % 4, at=at)
    big = (70,) if tier == "quick" else (70, 140)
    for i, reps in enumerate(big):
        for j, lay in enumerate(LAYOUTS):
            yield dict(part="long", layout=lay, reps=reps, order=(i + j) % 4, at=TEXAT[1], small=True)
    lib = list(meshes.closed()) + list(meshes.opened())
    for a in lib:
        yield dict(part="meshes", first=a)
    for a in ("octa", "cube", "strip5", "torus33", "opencube", "two"):
        yield dict(part="many", mesh=a)
    for a in ("tetra", "cube", "grid22", "torus33"):
        yield dict(part="hidden", mesh=a, copies=(1, 43, 5462, 11000) if tier == "quick" else (1, 42, 43, 5461, 5462, 10922, 10923, 11000, 22000))


CASE_LIMIT = 600


def check(case):
    r = R()
    r.n = 0
    p = case["part"]
    if p == "words":
        for i, rest in enumerate(itertools.product(range(8), repeat=case["n"] - 1)):
            word = (case["first"],) + rest
            for j, (sigma, aa) in enumerate(((0.0, False), (1.0, False), (0.75, True))):
                k = i + j + case["first"]
                order, nc, fl, at = k % 4, (1, 3)[k // 2 % 2], k % 3, TEXAT[k // 3 % 2]
                if fl == 2 and case["layout"] == "block":
                    fl = 0
                compare(r, word, case["layout"], order, sigma, aa, nc, fl, at, "cells %s in a %s, order %d, sigma %g, residual %s, %d channels, flags %s, texture %s" % (word, case["layout"], order, sigma, aa, nc, FLAGSETS[fl], at))
                if r.msgs:
                    return r
    elif p == "long":
        word = debruijn(8, 3) * case["reps"]
        for j, (sigma, aa) in enumerate(((1.0, False), (0.75, True)) if not case.get("small") else ((0.75, False),)):
            nc = 1 if case.get("small") else (1, 3)[(j + case["order"]) % 2]
            compare(r, word, case["layout"], case["order"], sigma, aa, nc, (j + case["order"]) % (2 if case["layout"] == "block" else 3), tuple(map(tuple, case["at"])), "the de Bruijn word of 8 cells and order 3 %d times in a %s, order %d, sigma %g, residual %s, texture %s" % (case["reps"], case["layout"], case["order"], sigma, aa, case["at"]))
            if r.msgs:
                return r
    elif p == "meshes":
        for b in list(meshes.closed()) + list(meshes.opened()):
            mesh_case(r, [case["first"], b], "meshes %s and %s" % (case["first"], b))
            if r.msgs:
                return r
    elif p == "many":
        lib = {**meshes.closed(), **meshes.opened()}
        n, f = len(lib[case["mesh"]][0]), len(lib[case["mesh"]][1])
        for size in (260, 33000, 66000):
            for ref in (n, f):
                k = size // ref + 1
                if k * max(n, f) < 150000:
                    mesh_case(r, [case["mesh"]] * k, "%d copies of %s" % (k, case["mesh"]), deep=size < 1000)
                    if r.msgs:
                        return r
    else:
        hidden_case(r, case)
    return r
