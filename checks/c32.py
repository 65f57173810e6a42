"""C32: conversion from and to trimesh over all small meshes with duplicated positions, colours, uv indices and texture layouts; files loaded through trimesh."""
import itertools
import logging
import os
import tempfile

import numpy as np
import PIL.Image
import trimesh

from deodr.triangulated_mesh import ColoredTriMesh
from dlib import hashed
from runner import R

logging.disable(logging.CRITICAL)
ID = "C32"
LEVEL = "exploration"
RULE = ("from trimesh: every partition of 5 vertices into equal positions x every list of one or two oriented triangles on them (up to the first being fixed) x {no visual, colours constant/per position/conflicting in one channel of one vertex, texture RGB/RGBA/grey/palette/grey+alpha with a uv per vertex}; "
        "to trimesh and back: every pair of triangles on 4 vertices x every pair of uv triples from 4 uv (two of them nearly equal) x clockwise x channels 1/3/4; OBJ files with texture loaded through trimesh; distinct = distinct resulting corner tables")
ASSUME = ["meshes without any colour may be refused", "image textures with a SimpleMaterial; finite coordinates"]

POS = np.array([[0.0, 0.0, 0.0], [1.0, 0.25, -0.5], [1.0, 0.25, -0.5 + 1e-9], [-0.75, 2.0, 3.0], [0.0, 1e-12, 0.0]])
MODES = ("RGB", "RGBA", "L", "P", "LA")


def partitions(n):
    """Restricted growth strings."""
    def rec(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for k in range(m + 1):
            yield from rec(p + [k], max(m, k + 1))
    yield from rec([], 0)


TRI = [t for t in itertools.permutations(range(5), 3)]


def cases(tier):
    for p in partitions(5):
        for vis in ["none", "constant", "position", "conflict0", "conflict2", "conflict4"] + list(MODES):
            yield dict(part="from", p=list(p), vis=vis, step=1 if tier == "thorough" else 3)
    for i in range(4):
        for cw, ch in itertools.product((False, True), (1, 3, 4)):
            yield dict(part="back", first=i, cw=cw, ch=ch, step=1 if tier == "thorough" else 3)
    for mode in ("RGB", "RGBA", "L", "P"):
        for perm in range(6):
            yield dict(part="file", mode=mode, perm=perm)


def image(mode):
    """A 5x3 PIL image and the array of its colours (without transparency)."""
    rgb = (hashed(45, 3).reshape(3, 5, 3) * 255).astype(np.uint8)
    if mode == "RGB":
        return PIL.Image.fromarray(rgb), rgb / 255
    if mode == "RGBA":
        return PIL.Image.fromarray(np.dstack([rgb, np.full((3, 5), 77, np.uint8)])), rgb / 255
    if mode == "L":
        return PIL.Image.fromarray(rgb[:, :, 0].copy()), rgb[:, :, :1] / 255
    if mode == "P":
        im = PIL.Image.new("P", (5, 3))
        im.putpalette(list(rgb.reshape(-1)))
        im.putdata(list(range(14, -1, -1)))
        return im, rgb.reshape(-1, 3)[::-1].reshape(3, 5, 3) / 255
    im = PIL.Image.fromarray(np.dstack([rgb[:, :, 0], np.full((3, 5), 9, np.uint8)]), mode="LA")
    return im, rgb[:, :, :1] / 255


def attempt(f):
    try:
        return f(), None
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        return None, e


def same_texture(tex, want):
    """Equal colours; a grey texture may be stored as one channel or three equal ones."""
    if tex.ndim != 3 or tex.shape[:2] != want.shape[:2] or tex.shape[2] not in (want.shape[2], 3):
        return False
    return np.abs(tex - want).max() <= 1e-12


def from_case(r, case):
    p = np.array(case["p"])
    V = POS[p].copy()
    if case["p"][0] == case["p"][1]:
        V[1] = V[1] * 1.0 + np.array([0.0, -0.0, 0.0])
        V[1][V[1] == 0] *= -1  # negative zero is the same position
    uv = (np.arange(10).reshape(5, 2) * 0.0701 + 0.123) % 1
    vis = case["vis"]
    colors, conflict = None, False
    tex = None
    lists = [[t] for t in TRI[:: case["step"]]] + [[TRI[0], t] for t in TRI[:: case["step"]]] + [[TRI[7], t] for t in TRI[1:: case["step"]]]
    if vis in ("constant", "position") or vis.startswith("conflict"):
        colors = np.tile(np.array([[10, 20, 30, 255]], np.uint8), (5, 1))
        if vis != "constant":
            colors[:, 0] = 10 + 5 * p
            colors[:, 1] = 200 - 17 * p
        if vis.startswith("conflict"):
            k = int(vis[-1])
            colors[k, k % 3] ^= 1
            conflict = (p == p[k]).sum() > 1
        colors[2, 3] = 128  # transparency is dropped
    for F in lists:
        r.n += 1
        text = "positions %s faces %s %s" % (case["p"], F, vis)
        F = np.array(F)
        if vis in MODES:
            im, tex = image(vis)
            visual = trimesh.visual.TextureVisuals(uv=uv.copy(), material=trimesh.visual.material.SimpleMaterial(image=im))
            t = trimesh.Trimesh(V.copy(), F.copy(), visual=visual, process=False)
        else:
            t = trimesh.Trimesh(V.copy(), F.copy(), vertex_colors=None if colors is None else colors.copy(), process=False)
        m, e = attempt(lambda: ColoredTriMesh.from_trimesh(t, compute_adjacencies=False))
        if conflict:
            if e is None:
                r.bad("conflict accepted", "%s: different colours at one position are accepted" % text)
                return
            r.key(text)
            continue
        if e is not None and vis == "none":
            r.count("without colours: refused")
            continue
        if e is not None:
            r.bad("raised", "%s: %r" % (text, e))
            return
        mv, mf = np.asarray(m.vertices), np.asarray(m.faces).astype(int)
        if mf.shape != F.shape or not np.array_equal(mv[mf], V[F]):
            r.bad("geometry", "%s: corners %s" % (text, mv[mf].tolist()))
            return
        if len(np.unique(mv, axis=0)) != len(mv):
            r.bad("not merged", "%s: vertices at equal positions are kept apart" % text)
            return
        if m.clockwise:
            r.bad("orientation", text)
        if colors is not None:
            if m.vertices_colors is None or np.abs(np.asarray(m.vertices_colors)[mf] - colors[F][:, :, :3] / 255).max() > 1e-12:
                r.bad("colours", "%s: corner colours differ" % text)
                return
        if tex is not None:
            want = uv[F] * [5, 3] * [1, -1] + [0, 3] - 0.5
            if m.uv is None or m.faces_uv is None or np.abs(np.asarray(m.uv)[np.asarray(m.faces_uv).astype(int)] - want).max() > 1e-12:
                r.bad("uv", "%s: corner uv differ" % text)
                return
            if not same_texture(np.asarray(m.texture), tex):
                r.bad("texture", "%s: texture has shape %s" % (text, np.shape(m.texture)))
                return
        if not (np.array_equal(t.vertices, V) and np.array_equal(t.faces, F)):
            r.bad("input modified", text)
        r.key(vis, mv[mf].tobytes(), case["p"])


def corners(m):
    V, F = np.asarray(m.vertices), np.asarray(m.faces).astype(int)
    return V[F], np.asarray(m.uv)[np.asarray(m.faces_uv).astype(int)]


def canonical(P, U):
    """Corners of each face, rotated to begin with the least one: independent of the starting corner."""
    out = []
    for p, u in zip(P, U):
        rows = [np.concatenate([a, b]) for a, b in zip(p, u)]
        k = min(range(3), key=lambda i: tuple(np.round(rows[i], 6)))
        out.append(rows[k:] + rows[:k])
    return np.array(out)


def back_case(r, case):
    V = np.array([[0.0, 0.0, 0.0], [1.0, 0.25, -0.5], [0.25, 1.5, 0.75], [0.25 + 1e-9, 1.5, 0.75]])
    uv = np.array([[0.0, 0.0], [3.25, 1.5], [3.25 + 1e-4, 1.5], [0.75, 2.25]])
    T4 = list(itertools.permutations(range(4), 3))
    ch = case["ch"]
    tex8 = np.round(hashed(12 * ch, 5).reshape(3, 4, ch) * 255) / 255
    texf = hashed(12 * ch, 8).reshape(3, 4, ch) * 1.25 - 0.125
    for n, (f0, f1, u0, u1) in enumerate(itertools.product(T4[case["first"] * 6:case["first"] * 6 + 1], T4, T4, T4)):
        if (n + n // 24) % case["step"]:
            continue
        r.n += 1
        F, U = np.array([f0, f1]), np.array([u0, u1])
        tex = tex8 if (n // 7) % 2 else texf
        text = "faces %s uv %s clockwise=%s %d channels" % (F.tolist(), U.tolist(), case["cw"], ch)
        m = ColoredTriMesh(F, V.copy(), clockwise=case["cw"], faces_uv=U, uv=uv.copy(), texture=tex.copy(), compute_adjacencies=False)
        res, e = attempt(lambda: m.to_trimesh())
        if e is not None:
            r.bad("to raised", "%s: %r" % (text, e))
            return
        b, e = attempt(lambda: ColoredTriMesh.from_trimesh(res, compute_adjacencies=False))
        if e is not None:
            r.bad("back raised", "%s: %r" % (text, e))
            return
        P0, U0 = corners(m)
        P1, U1 = corners(b)
        if bool(b.clockwise) != case["cw"]:
            P0, U0 = P0[:, ::-1], U0[:, ::-1]
        if P1.shape != P0.shape:
            r.bad("round trip faces", "%s: %d faces" % (text, len(P1)))
            return
        a, c = canonical(P0, U0), canonical(P1, U1)
        if np.abs(a - c).max() > 1e-11:
            r.bad("round trip", "%s: corners (position, uv) %s instead of %s" % (text, c[0].tolist(), a[0].tolist()))
            return
        t1 = np.asarray(b.texture)
        want = np.clip(tex, 0, 1)[:, :, :3]
        if t1.ndim != 3 or t1.shape[:2] != want.shape[:2] or t1.shape[2] not in (want.shape[2], 3) or np.abs(t1 - want).max() > (1 / 255 if tex is texf else 1e-12) + 1e-12:
            r.bad("round trip texture", "%s: texture of shape %s differs" % (text, t1.shape))
            return
        if not (np.array_equal(m.vertices, V) and np.array_equal(m.uv, uv) and np.array_equal(m.texture, tex) and np.array_equal(m.faces, F)):
            r.bad("input modified", text)
        r.key(np.round(c, 9).tobytes())


def file_case(r, case):
    """OBJ file with a seam and a texture."""
    im, tex = image(case["mode"])
    perm = list(itertools.permutations(range(3)))[case["perm"]]
    V = [(0, 0, 0), (1, 0.25, -0.5), (0.25, 1.5, 0.75), (-1, 0.5, 2)]
    UV = [(0.1, 0.2), (0.9, 0.3), (0.4, 0.8), (0.25, 0.75), (0.6, 0.05)]
    faces = [((0, 0), (1, 1), (2, 2)), ((0, 3), (2, 4), (3, 1))]
    faces = [tuple(f[k] for k in perm) for f in faces]
    with tempfile.TemporaryDirectory() as d:
        im.save(os.path.join(d, "t.png"))
        with open(os.path.join(d, "m.mtl"), "w") as fd:
            fd.write("newmtl a\nKd 1 1 1\nmap_Kd t.png\n")
        with open(os.path.join(d, "m.obj"), "w") as fd:
            fd.write("mtllib m.mtl\n")
            fd.writelines("v %r %r %r\n" % v for v in V)
            fd.writelines("vt %r %r\n" % v for v in UV)
            fd.write("usemtl a\n")
            for f in faces:
                fd.write("f " + " ".join("%d/%d" % (a + 1, b + 1) for a, b in f) + "\n")
        m, e = attempt(lambda: ColoredTriMesh.load(os.path.join(d, "m.obj")))
    r.n += 1
    text = "OBJ with a %s texture, faces %s" % (case["mode"], faces)
    if e is not None:
        r.bad("load raised", "%s: %r" % (text, e))
        return
    P, U = corners(m)
    wP = np.array([[V[a] for a, b in f] for f in faces], float)
    wU = np.array([[UV[b] for a, b in f] for f in faces]) * [5, -3] + [0, 3] - 0.5
    if P.shape != wP.shape or np.abs(canonical(P, U) - canonical(wP, wU)).max() > 1e-9:
        r.bad("load", "%s: corners %s %s" % (text, P.tolist(), U.tolist()))
    if not same_texture(np.asarray(m.texture), tex):
        r.bad("load texture", "%s: texture of shape %s" % (text, np.shape(m.texture)))
    r.key(case["mode"], case["perm"])


def check(case):
    r = R()
    r.n = 0
    dict(back=back_case, file=file_case)[case["part"]](r, case) if case["part"] != "from" else from_case(r, case)
    return r
