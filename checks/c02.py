"""C02: triangulations cover every pixel exactly once (strict edges); closed coverage without strict edges."""
import itertools

import numpy as np

from dlib import Ref, scene
from runner import R

ID = "C02"
LEVEL = "exploration"
RULE = ("all triangulations of a rectangle containing the image obtained by inserting one, two or three interior points from a lattice "
        "(dyadic and non-dyadic coordinates, so that pixel centres fall on shared edges and vertices), for both orientations, both "
        "pixel-centre conventions, all corner rotations in turn; triangles much thinner than a pixel around every pixel centre; each triangulation is rendered twice with opposite depth orders: a pixel is covered exactly once "
        "iff both renders show the same triangle and neither the background; non-trivial/distinct = distinct owner maps")

W = H = 5


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def insert(tris, pts, p):
    """Inserts point p in a triangulation (counter-clockwise index triples), splitting the triangles that contain it."""
    if p in pts:
        return tris, pts
    i = len(pts)
    pts = pts + [p]
    out = []
    for t in tris:
        w = [cross(pts[t[e]], pts[t[(e + 1) % 3]], p) for e in range(3)]
        if min(w) < 0:
            out.append(t)
            continue
        for e in range(3):
            if w[e] > 0:
                out.append((t[e], t[(e + 1) % 3], i))
    return out, pts


LATS = {
    "half": [k / 2 for k in range(0, 9)],
    "quarter": [k / 4 for k in range(-1, 18)],
    "third": [k / 3 for k in range(0, 13)],
    "tenth": [0.1, 0.3, 0.7, 1.1, 1.9, 2.2, 2.9, 3.3, 3.9],
}


def cases(tier):
    for lat in (("half", "third", "tenth") if tier == "quick" else ("half", "quarter", "third", "tenth")):
        c = LATS[lat]
        for p in itertools.product(range(len(c)), repeat=2):
            yield dict(kind="two", lat=lat, p=p)
    c3 = [0, 1, 2.5, 4]
    for p, q in itertools.product(itertools.product(c3, repeat=2), repeat=2):
        yield dict(kind="three", p=p, q=q)
    pts = list(itertools.product((-1, 0, 0.5, 2, 3, 5), (-1, 0, 1, 1.5, 4)))
    for a, b in itertools.product(range(len(pts)), repeat=2):
        yield dict(kind="closed", a=a, b=b)
    for i in range(25):
        yield dict(kind="sliver", i=i)
    for n in range(2, 8):
        for sh in range(8):
            yield dict(kind="grid", n=n, sh=sh)


def covered_once(r, tris, pts, tag, detail, variant, full=True, size=(H, W), exempt_edges=False):
    h, w = size
    n = len(tris)
    clockwise = bool(variant & 1)
    ipc = not (variant & 2)
    pts = np.array(pts, dtype=np.float64)
    # ccw in our lattice (x right, y down: positive cross) is "clockwise" for the renderer
    f = []
    for k, t in enumerate(tris):
        t = t if clockwise else t[::-1]
        rot = (k + variant // 4) % 3
        f.append(t[rot:] + t[:rot])
    if not ipc:
        pts = pts + 0.5
    # separate vertices per face so that each face has its own depth and colour; positions are bitwise equal
    V = pts[np.array(f).ravel()]
    F = np.arange(3 * n).reshape(n, 3)
    cols = np.repeat(np.arange(1, n + 1), 3)[:, None].astype(float)
    maps = []
    for order in (np.arange(1, n + 1), np.arange(n, 0, -1)):
        s = scene(V, F, np.repeat(order, 3), width=w, height=h, nb_colors=1, colors=cols, background=[0.0], clockwise=clockwise, integer_pixel_centers=ipc)
        img, z = s.render(sigma=0)
        maps.append(np.rint(img[:, :, 0]).astype(int))
    r.n += 1
    a, b = maps
    if exempt_edges:
        # coordinates whose products are rounded: pixel centres that lie on an edge only up to rounding are exempt (see DESIGN.md)
        q = pts if ipc else pts - 0.5
        ys, xs = np.mgrid[0:h, 0:w]
        for t in tris:
            for e in range(3):
                p0, d = q[t[e]], q[t[(e + 1) % 3]] - q[t[e]]
                n = np.hypot(*d)
                u, v = ((xs - p0[0]) * d[0] + (ys - p0[1]) * d[1]) / n, ((xs - p0[0]) * d[1] - (ys - p0[1]) * d[0]) / n
                on = (np.abs(v) < 1e-9) & (u > -1e-9) & (u < n + 1e-9)
                a[on] = b[on] = 1
                if e == 0:
                    r.count("exempt_on_edge_pixels", int(on.sum()))
    r.key(a.tobytes(), variant)
    if full and ((a == 0) | (b == 0)).any():
        r.bad(tag + ":hole", "%s: pixel(row,col) %s not covered" % (detail, np.argwhere((a == 0) | (b == 0))[:3].tolist()))
    if (a != b).any():
        r.bad(tag + ":double", "%s: pixel %s covered by faces %s and %s" % (detail, np.argwhere(a != b)[0].tolist(), a[a != b][0] - 1, b[a != b][0] - 1))


def check(case):
    r = R()
    r.n = 0
    outer = [(-1.5, -2.0), (5.25, -2.0), (5.25, 6.5), (-1.5, 6.5)]
    base = [(0, 1, 2), (0, 2, 3)]
    k = case["kind"]
    if k == "two":
        c = LATS[case["lat"]]
        p = (c[case["p"][0]], c[case["p"][1]])
        t1, p1 = insert(base, outer, p)
        for i, q in enumerate(itertools.product(c, repeat=2)):
            t2, p2 = insert(t1, p1, q)
            if min(cross(p2[t[0]], p2[t[1]], p2[t[2]]) for t in t2) < 1e-9:
                continue  # nearly collinear points: rounding noise, not a triangulation (never happens on dyadic lattices)
            covered_once(r, t2, p2, "two", "points %s %s" % (p, q), (i + case["p"][0]) % 12, exempt_edges=case["lat"] in ("third", "tenth"))
            if r.msgs:
                break
    elif k == "three":
        t1, p1 = insert(base, outer, tuple(case["p"]))
        t1, p1 = insert(t1, p1, tuple(case["q"]))
        for i, q in enumerate(itertools.product([0, 0.5, 1, 2, 3, 4], repeat=2)):
            t2, p2 = insert(t1, p1, q)
            covered_once(r, t2, p2, "three", "points %s %s %s" % (case["p"], case["q"], q), i % 12)
            if r.msgs:
                break
    elif k == "grid":
        # sheared grids of triangles, both diagonals, partly outside the image
        n = case["n"]
        a, b = [(0, 0), (1, 0), (0, 1), (1, 1), (-1, 0.5), (0.5, -0.25), (0.1, 0.2), (1 / 3, -1)][case["sh"]]
        for step in (0.5, 1.0, 1.25, 0.7):
            for off in (0, -0.5, -3.1):
                pts = [(off - 2 + x * step + a * y * step, off + y * step + b * x * step) for y in range(2 * n + 1) for x in range(2 * n + 1)]
                tris = []
                m = 2 * n + 1
                for y in range(2 * n):
                    for x in range(2 * n):
                        i = y * m + x
                        q = (i, i + 1, i + m + 1, i + m)
                        quad = [(q[0], q[1], q[2]), (q[0], q[2], q[3])] if (x + y) % 2 else [(q[0], q[1], q[3]), (q[1], q[2], q[3])]
                        tris += quad
                tris = [t if cross(pts[t[0]], pts[t[1]], pts[t[2]]) > 0 else t[::-1] for t in tris]
                if min(abs(cross(pts[t[0]], pts[t[1]], pts[t[2]])) for t in tris) < 1e-9:
                    continue
                for variant in range(0, 12, 3):
                    covered_once(r, tris, pts, "grid", "grid %s step %s off %s" % (case, step, off), variant, full=False, size=(7, 6), exempt_edges=case["sh"] >= 6 or step == 0.7 or off == -3.1)
                if r.msgs:
                    return r
    else:
        if k == "sliver":
            # triangles much thinner than a pixel, and tiny ones, around pixel centres
            a = (case["i"] % 5, case["i"] // 5)
            triples = [((a[0] - d[0] * m, a[1] - d[1] * m), (a[0] + d[0] * e, a[1] + d[1] * e), (a[0] + d[0] * m - t * d[1] - u, a[1] + d[1] * m + t * d[0] + u))
                       for d in ((1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 3)) for m in (1 / 64, 0.5, 3) for e in (0.5, 2, 1 / 32) for t in (1 / 128, -1 / 128, 1 / 1024) for u in (0, 1 / 2048)]
        else:
            pts = list(itertools.product((-1, 0, 0.5, 2, 3, 5), (-1, 0, 1, 1.5, 4)))
            triples = [(pts[case["a"]], pts[case["b"]], c) for c in pts]
        for a, b, c in triples:
            w = cross(a, b, c)
            if w == 0:
                continue
            for strict in (False, True):
                s = scene([a, b, c], [(0, 1, 2)], [1, 1, 1], width=5, height=5, nb_colors=1, colors=np.ones((3, 1)), background=[0.0],
                          clockwise=w > 0, strict_edge=strict)
                cov = np.abs(s.render(sigma=0)[0][:, :, 0] - 1) < 1e-9
                ys, xs = np.mgrid[0:5, 0:5]
                sg = 1 if w > 0 else -1
                e = [sg * ((q[0] - p[0]) * (ys - p[1]) - (q[1] - p[1]) * (xs - p[0])) for p, q in ((a, b), (b, c), (c, a))]
                closed = (e[0] >= 0) & (e[1] >= 0) & (e[2] >= 0)
                inner = (e[0] > 0) & (e[1] > 0) & (e[2] > 0)
                r.n += 1
                r.key(cov.tobytes(), strict)
                if not strict and (cov != closed).any():
                    r.bad("closed", "triangle %s: pixel %s covered=%s" % ((a, b, c), np.argwhere(cov != closed)[0].tolist(), cov[cov != closed][0]))
                if strict and ((inner & ~cov) | (cov & ~closed)).any():
                    r.bad("strict", "triangle %s: interior pixel missing or outer pixel drawn" % ((a, b, c),))
    return r
