"""C11: all words up to a given length over rewritings of the same scene give the correspondingly transformed image, depth and gradients."""
import itertools

import numpy as np

from dlib import Ref, close, close_scaled, dr, hashed
from runner import KNOWN, R
from scenes import ALLFLAGS, SHAPES, fan, multi

ID = "C11"
LEVEL = "model_checking"
CASE_LIMIT = 60
RULE = ("states are ways of writing down a base scene, reached by all words of length 1 and 2 (thorough: 3) over the generators: adjacent face transpositions, rotation of the corners of one face with its flags, "
        "cyclic and adjacent renumbering of vertices and of uv, splitting shared vertices and uv (duplicates), reversing all faces with the clockwise flag, moving by half a pixel with the pixel-centre flag, "
        "moving by whole pixels inside another window, cropping, storing every array in Fortran order, as a reversed or as a strided view; every state is rendered in image and residual mode and back-propagated and mapped back. "
        "Each base scene (thorough: under all flags) is also hidden among 66000 behind, off-screen or empty triangles with their own vertices and uv, seen in windows of 70000 columns or rows, and given textures of 70000 columns or rows")
ASSUME = ["pixels where the reference finds an exact tie (depth, edge order) are left out, with zero adjoint", "coordinates are dyadic so that coverage is exact"]


def spec_of(s):
    d = {k: np.array(getattr(s, k)) for k in ("faces", "faces_uv", "ij", "depths", "textured", "uv", "shade", "colors", "shaded", "edgeflags", "texture")}
    d.update(background_image=None if s.background_image is None else np.array(s.background_image), background_color=s.background_color,
             height=s.height, width=s.width, nb_colors=s.nb_colors, clockwise=s.clockwise, backface_culling=s.backface_culling,
             strict_edge=s.strict_edge, perspective_correct=s.perspective_correct, integer_pixel_centers=s.integer_pixel_centers)
    d["_v"] = np.arange(len(s.ij))  # new vertex -> base vertex
    d["_t"] = np.arange(len(s.uv))
    d["_off"] = (0, 0)  # window origin in base pixels (x, y)
    return d


def build(d):
    return dr.Scene2D(**{k: v for k, v in d.items() if k[0] != "_"})


def permute_vertices(d, p):
    q = np.argsort(p)
    for k in ("ij", "depths", "shade", "colors", "_v"):
        d[k] = d[k][p]
    d["faces"] = q[d["faces"]].astype(np.uint32)
    return d


def permute_uv(d, p):
    q = np.argsort(p)
    d["uv"], d["_t"] = d["uv"][p], d["_t"][p]
    d["faces_uv"] = q[d["faces_uv"]].astype(np.uint32)
    return d


def swap(n, i):
    p = np.arange(n)
    p[[i, i + 1]] = p[[i + 1, i]]
    return p


FACEWISE = ("faces", "faces_uv", "textured", "shaded", "edgeflags")


def generators(d):
    """Names of the generators applicable to a spec (the same list for every state of a base)."""
    n = len(d["faces"])
    g = [("face", i) for i in range(n - 1)] + [("corner", i) for i in range(n)] + [("reverse", 0), ("half", 0), ("vcycle", 0), ("vswap", 0), ("split", 0), ("tcycle", 0), ("tsplit", 0)]
    g += [("layout", k) for k in ("fortran", "reversed", "strided")]
    g += [("window", w) for w in ((1, 0, 0, 0), (0, 1, 0, 0), (-1, -2, 2, 3), (2, 1, -3, -2), (0, 0, -1, 0), (-3, 0, 0, 1))]
    return g


def relayout(v, a):
    if a == "fortran":
        return np.asfortranarray(v)
    if a == "reversed":
        flip = (slice(None, None, -1),) * v.ndim
        return np.ascontiguousarray(v[flip])[flip]
    big = np.zeros(tuple(2 * n for n in v.shape), dtype=v.dtype)
    big[(slice(1, None, 2),) * v.ndim] = 1
    every = (slice(None, None, 2),) * v.ndim
    big[every] = v
    return big[every]


def apply(d, gen):
    d = dict(d)
    name, a = gen
    n = len(d["faces"])
    if name == "face":
        p = swap(n, a)
        for k in FACEWISE:
            d[k] = d[k][p]
    elif name == "corner":
        for k in ("faces", "faces_uv", "edgeflags"):
            d[k] = d[k].copy()
            d[k][a] = np.roll(d[k][a], -1)
    elif name == "reverse":
        for k in ("faces", "faces_uv"):
            d[k] = np.ascontiguousarray(d[k][:, ::-1])
        d["edgeflags"] = d["edgeflags"][:, [1, 0, 2]]
        d["clockwise"] = not d["clockwise"]
    elif name == "half":
        d["ij"] = d["ij"] + (0.5 if d["integer_pixel_centers"] else -0.5)
        d["integer_pixel_centers"] = not d["integer_pixel_centers"]
    elif name == "vcycle":
        permute_vertices(d, np.roll(np.arange(len(d["ij"])), 1))
    elif name == "vswap":
        permute_vertices(d, swap(len(d["ij"]), 0))
    elif name == "split":  # every corner gets its own vertex
        f = d["faces"].flatten()
        for k in ("ij", "depths", "shade", "colors", "_v"):
            d[k] = d[k][f]
        d["faces"] = np.arange(3 * n, dtype=np.uint32).reshape(n, 3)
    elif name == "tcycle":
        permute_uv(d, np.roll(np.arange(len(d["uv"])), 1))
    elif name == "tsplit":
        f = d["faces_uv"].flatten()
        d["uv"], d["_t"] = d["uv"][f], d["_t"][f]
        d["faces_uv"] = np.arange(3 * n, dtype=np.uint32).reshape(n, 3)
    elif name == "layout":
        for k, v in d.items():
            if k[0] != "_" and isinstance(v, np.ndarray):
                d[k] = relayout(v, a)
    elif name == "window":
        x0, y0, dw, dh = a
        w, h = d["width"] + dw, d["height"] + dh
        if w < 1 or h < 1:
            return None
        d["ij"] = d["ij"] - np.array([x0, y0], dtype=float)
        if d["background_image"] is not None:
            big = d["_bg"]
            ox, oy = d["_off"][0] + x0 + 16, d["_off"][1] + y0 + 16
            d["background_image"] = np.ascontiguousarray(big[oy:oy + h, ox:ox + w])
        d["width"], d["height"] = w, h
        d["_off"] = (d["_off"][0] + x0, d["_off"][1] + y0)
    return d


def bases():
    out = []
    for k, (sh, dp) in enumerate(itertools.product(((0, 1), (2, 1, 3), (0, 6, 4), (5, 3), (1, 7, 2)), range(3))):
        depths = [[(2, 2.25, 2.5), (1, 3, 4.625), (5, 3.5, 1.125)], [(5, 3.5, 1.25), (1, 2.5, 2), (1.5, 1.5, 1.625)], [(1, 3, 5), (5, 3, 1.25), (2, 2, 2.125)]][dp]
        for tx in (0, 5, 7):
            out.append(("multi", [SHAPES[i] for i in sh], depths[:len(sh)], tx, k))
    for n in (3, 5):
        for tx in (0, 1):
            out.append(("fan", n, tx))
    return out


def make(b, flags, i):
    kw = {}
    if i & 1:
        kw["background_image"] = np.zeros((4, 5, 1))
    if b[0] == "multi":
        s = multi(b[1], b[2], i, flags, textured=b[3], edgemask=511 if i % 3 else 0b101110011)
    else:
        n = b[1]
        opt = {}
        if b[2]:
            opt = dict(textured=[True] * n, texture=hashed(3 * 4 * 2, 7).reshape(3, 4, 2) + 0.25, uv=hashed(2 * (n + 2), 4).reshape(-1, 2) * 3 - 0.5,
                       faces_uv=(np.arange(3 * n).reshape(n, 3) * 2) % (n + 2))
        s = fan(n, i, flags, **opt)
    d = spec_of(s)
    if i & 1:
        c = s.nb_colors
        big = hashed(40 * 40 * c, 21).reshape(40, 40, c)
        d["_bg"] = big
        d["background_color"] = None
        d["background_image"] = np.ascontiguousarray(big[16:16 + s.height, 16:16 + s.width])
    return d


def cases(tier):
    B = bases()
    for b in range(len(B)):
        for fi in range(32):
            for sg in (0, 1):
                yield dict(b=b, fi=fi, sg=sg, depth=3 if tier == "thorough" and (b + fi) % 8 == 0 else 2)
    for b in range(0, len(B), 1 if tier == "thorough" else 3):
        for fi in (range(32) if tier == "thorough" else ((8, 12, 28, 24, 9, 31)[b % 6], (12, 28, 8, 13, 25, 10)[b // 6 % 6])):
            for t in range(len(SCALE)):
                yield dict(k="scale", b=b, fi=fi, sg=(b + t) % 2, t=t)


BIG = 66000
SCALE = [("filler", k, where) for k in ("behind", "outside", "empty") for where in ("before", "after", "around")] + [("filler", "none", "before")]
SCALE += [("window", (-70000, 0, 70000, 0)), ("window", (0, -70000, 0, 70000)), ("window", (-100, -90, 400, 350)), ("texture", "wide"), ("texture", "tall")]


def enlarge(d, how):
    """The same scene with more of everything than 16 bits can count, or seen in a huge window, or with a huge texture."""
    if how[0] == "window":
        return apply(d, how)
    d = dict(d)
    if how[0] == "texture":
        t = d["texture"]
        ax = 1 if how[1] == "wide" else 0
        d["texture"] = np.concatenate([np.repeat(t.take([0], ax), BIG, ax), t, np.repeat(t.take([-1], ax), 70000 - BIG, ax)], ax)
        off = np.zeros(2)
        off[1 - ax] = BIG
        d["uv"] = np.clip(d["uv"], 1, None) + off  # uv counts columns from 1
        return d
    kind, where = how[1:]
    n, nt, nf = len(d["ij"]), len(d["uv"]), len(d["faces"])
    before = {"before": BIG, "after": 0, "around": BIG // 2}[where]
    x = hashed(BIG, 61)
    more = dict(ij=np.stack([1e4 + 50 * x, 3 * hashed(BIG, 62)], 1) if kind == "outside" else np.stack([4 * x, 3 * hashed(BIG, 62)], 1), depths=0.5 + 5 * hashed(BIG, 63), shade=hashed(BIG, 64),
                colors=hashed(BIG * d["colors"].shape[1], 65).reshape(BIG, -1), uv=3 * hashed(2 * BIG, 66).reshape(-1, 2))
    if kind == "behind":
        more["depths"][::2] = -1.0
    for k, v in more.items():
        d[k] = np.concatenate([v[:before], d[k], v[before:]])
    d["_v"] = np.concatenate([np.full(before, -1), d["_v"], np.full(BIG - before, -1)])
    d["_t"] = np.concatenate([np.full(before, -1), d["_t"], np.full(BIG - before, -1)])
    if kind == "none":
        m = 0
    else:
        m = BIG
    i = np.arange(m)
    place = lambda v: np.where(v < before, v, v + n)
    placet = lambda v: np.where(v < before, v, v + nt)
    a = place(i)
    f = np.stack([a, a, a], 1) if kind == "empty" else np.stack([a, place((i + 1) % BIG), place((i + 2) % BIG)], 1)
    ft = np.stack([placet(i), placet((i * 7) % BIG), placet((i + 3) % BIG)], 1)
    bf = before if m else 0
    for k, v, o in (("faces", f, before), ("faces_uv", ft, before)):
        d[k] = np.concatenate([v[:bf], d[k].astype(np.int64) + o, v[bf:]]).astype(np.uint32)
    for k, v in (("textured", np.full(m, bool(d["textured"].any()))), ("shaded", np.ones(m, dtype=bool)), ("edgeflags", np.ones((m, 3), dtype=bool))):
        d[k] = np.concatenate([v[:bf], d[k], v[bf:]])
    return d


def scale(r, case):
    fl = ALLFLAGS[case["fi"]]
    b = bases()[case["b"]]
    how = SCALE[case["t"]]
    d = make(b, fl, case["b"] + case["fi"])
    if how[0] == "texture":
        if d["texture"].ndim != 3 or not d["textured"].any():
            return
        d["uv"] = np.clip(d["uv"], 1, None)
    if how[0] == "window" and d["background_image"] is not None:
        d["background_image"], d["background_color"] = None, np.linspace(0.25, 0.75, d["nb_colors"])
    if how[0] == "filler" and how[1] == "empty" and not fl["backface_culling"]:
        return
    sigma = 1.25 if case["sg"] else 0.0
    grad_ok = fl["backface_culling"] and not fl["perspective_correct"]
    e = enlarge(d, how)
    text = "%s %s" % (case, how)
    names = ("ij_b", "colors_b", "shade_b", "uv_b", "texture_b")
    h, w, c = d["height"], d["width"], d["nb_colors"]
    oy, ox = e["_off"][1], e["_off"][0]
    sl = (slice(-oy, -oy + h), slice(-ox, -ox + w))
    obs = hashed(h * w * c, 31).reshape(h, w, c)
    adj = hashed(h * w * c, 33).reshape(h, w, c) - 0.25
    amb = Ref(build(d), exact=True).render(sigma)[3] != 0
    adj[amb] = 0
    for mode in (0, 1):
        res = []
        for q in (d, e):
            s = build(q)
            H, W = q["height"], q["width"]
            O, A = np.zeros((H, W, c)), np.zeros((H, W, c))
            at = sl if q is e else (slice(None), slice(None))
            O[at], A[at] = obs, adj
            r.n += 1
            if mode:
                im, z, er = s.render_error(O, sigma)
            else:
                (im, z), er = s.render(sigma), None
            out = [im[at], z[at]] + ([er[at]] if mode else [])
            g = None
            if grad_ok:
                if mode:
                    s.render_error_backward(np.ascontiguousarray(A[:, :, 0]))
                else:
                    s.render_backward(A)
                g = {k: np.array(getattr(s, k)) for k in names}
            res.append((out, g))
        (x, gx), (y, gy) = res
        r.count("states")
        r.count("traces")
        r.key("scale", case["b"], case["fi"], how[0], how[1], mode)
        for name, u, v in zip(("image", "z-buffer", "residual"), x, y):
            if not close(u[~amb], v[~amb], 1e-9):
                r.bad("scale:" + how[0] + ":" + name, "%s: the %s is\n%s\ninstead of\n%s" % (text, name, v, u))
                return
        if not grad_ok:
            continue
        if how[0] == "filler":
            for k, m, other in (("ij_b", e["_v"], 0), ("colors_b", e["_v"], 0), ("shade_b", e["_v"], 0), ("uv_b", e["_t"], 0)):
                if np.abs(gy[k][m < 0]).max(initial=0) != 0:
                    r.bad("scale:filler:" + k, "%s: hidden vertices have gradients" % text)
                    return
                gy[k] = gy[k][m >= 0]
        if how[0] == "texture":
            t = gy["texture_b"]
            ax = 1 if how[1] == "wide" else 0
            n = gx["texture_b"].shape[ax]
            mid = np.moveaxis(t, ax, 0)
            o = mid[BIG:BIG + n].copy()
            o[0] += mid[:BIG].sum(0)
            o[-1] += mid[BIG + n:].sum(0)
            gy["texture_b"] = np.moveaxis(o, 0, ax)
        bad = [k for k in names if not alike(gy[k], gx[k])]
        if bad and mode and sigma and how[0] == "window":
            g = Ref(build(d), exact=True).grad(sigma, np.ascontiguousarray(adj[:, :, 0]), obs, defect=True)
            if all(alike(gx[k], g[k]) for k in names if k != "texture_b" or d["texture"].ndim == 3):
                bad = []  # the known finding depends on the window; counted in the words
        if bad:
            r.bad("scale:%s:%s" % (how[0], bad[0]), "%s: the gradient %s of the %s is\n%s\ninstead of\n%s" % (text, bad[0], "residual" if mode else "image", gy[bad[0]], gx[bad[0]]))
            return


M = 4  # the base is rendered on a canvas extended by M on every side so that shifted windows can be compared


def check(case):
    r = R()
    r.n = 0
    if "k" in case:
        scale(r, case)
        return r
    B = bases()
    fl = ALLFLAGS[case["fi"]]
    b = B[case["b"]]
    d0 = make(b, fl, case["b"] + case["fi"])
    sigma = 1.25 if case["sg"] else 0.0
    canvas = apply(d0, ("window", (-M, -M, 2 * M, 2 * M)))
    canvas = dict(canvas, _off=(0, 0), _v=d0["_v"])
    s = build(canvas)
    c = s.nb_colors
    obs = hashed(s.height * s.width * c, 31).reshape(s.height, s.width, c)
    img, z = s.render(sigma)
    amb = Ref(s, exact=True).render(sigma)[3] != 0
    grad_ok = fl["backface_culling"] and not fl["perspective_correct"]
    img2, z2, err = build(canvas).render_error(obs, sigma)
    adj = hashed(s.height * s.width * c, 33).reshape(s.height, s.width, c) - 0.25
    adj[amb] = 0
    aerr = adj[:, :, 0].copy()
    seen = {}
    # breadth first over words
    level = [(d0, ())]
    gens = generators(d0)
    n0 = len(d0["ij"])
    nt0 = len(d0["uv"])
    gcache = {}

    def expected(off, h, w, mode, ipc=None):
        key = (off, h, w, mode, ipc)
        if key not in gcache:
            m = np.zeros((s.height, s.width), dtype=bool)
            m[max(0, M + off[1]):max(0, M + off[1] + h), max(0, M + off[0]):max(0, M + off[0] + w)] = True
            t = build(canvas)
            if mode == 0:
                t.render(sigma)
                t.render_backward(adj * m[:, :, None])
            else:
                t.render_error(obs, sigma)
                t.render_error_backward(aerr * m)
            gcache[key] = [getattr(t, g) for g in ("ij_b", "colors_b", "shade_b", "uv_b", "texture_b")]
        return gcache[key]

    def expected_residual(off, h, w, ipc):
        """The residual gradient in this window: that of the canvas, unless exactly the known finding makes it differ."""
        key = (off, h, w, "r", ipc)
        if key not in gcache:
            e = expected(off, h, w, 1)
            gcache[key] = e
            d = apply(d0, ("half", 0)) if ipc != d0["integer_pixel_centers"] else d0
            d = apply(d, ("window", off + (w - d["width"], h - d["height"])))
            t = build(d)
            sl = (slice(off[1] + M, off[1] + M + h), slice(off[0] + M, off[0] + M + w))
            O, A = np.ascontiguousarray(obs[sl]), np.ascontiguousarray(aerr[sl])
            t.render_error(O, sigma)
            t.render_error_backward(A)
            names = ("ij_b", "colors_b", "shade_b", "uv_b", "texture_b")
            got = [getattr(t, g) for g in names]
            if not all(alike(x, y) for x, y in zip(got, e)):
                g = Ref(t, exact=True).grad(sigma, A, O, defect=True)
                if all(alike(x, g[k]) for k, x in zip(names, got) if k != "texture_b" or t.texture.ndim == 3):
                    r.bad("residual-edge-colour-gradient", "%s window %s: residual gradient differs from that of the whole image" % (case, off))
                    gcache[key] = got
        return gcache[key]

    for dep in range(case["depth"] + 1):
        nxt = []
        for d, word in level:
            t = build(d)
            ox, oy = d["_off"][0] + M, d["_off"][1] + M
            h, w = t.height, t.width
            # part of the window inside the canvas
            ys = [y for y in range(h) if 0 <= y + oy < s.height]
            xs = [x for x in range(w) if 0 <= x + ox < s.width]
            if not ys or not xs:
                continue
            sub = np.ix_(ys, xs)
            big = np.ix_([y + oy for y in ys], [x + ox for x in xs])
            key = tuple((v.tobytes(), v.strides) if isinstance(v, np.ndarray) else repr(v) for k, v in sorted(d.items()) if k != "_bg")
            r.count("transitions")
            if key in seen:
                continue
            seen[key] = 1
            r.n += 1
            r.count("states")
            r.count("traces")
            a = amb[big]
            ti, tz = t.render(sigma)
            ok = ~a
            if not close(ti[sub][ok], img[big][ok], 1e-9) or not close(tz[sub][ok], z[big][ok], 1e-9):
                r.bad("image:" + (word[-1][0] if word else "window"), "%s word %s: the image or z-buffer is not the transformed one" % (case, word))
                return r
            tg = None
            full = len(ys) == h and len(xs) == w
            if grad_ok and full:
                A = np.zeros((h, w, c))
                A[sub] = adj[big]
                t.render_backward(A)
                tg = check_grads(r, t, d, expected(d["_off"], h, w, 0), n0, nt0, case, word, "gradient")
                if any(m[0] not in KNOWN for m in r.msgs):
                    return r
            O = np.zeros((h, w, c))
            O[sub] = obs[big]
            t = build(d)
            ti, tz, te = t.render_error(O, sigma)
            if not close(te[sub][ok], err[big][ok], 1e-9) or not close(ti[sub][ok], img2[big][ok], 1e-9):
                r.bad("residual:" + (word[-1][0] if word else "window"), "%s word %s: the residual is not the transformed one" % (case, word))
                return r
            if grad_ok and full:
                A = np.zeros((h, w))
                A[sub] = aerr[big]
                t.render_error_backward(A)
                check_grads(r, t, d, expected_residual(d["_off"], h, w, d["integer_pixel_centers"]), n0, nt0, case, word, "residual gradient")
                if any(m[0] not in KNOWN for m in r.msgs):
                    return r
            if dep < case["depth"]:
                for g in gens:
                    e = apply(d, g)
                    if e is not None:
                        nxt.append((e, word + (g,)))
        level = nxt
    r.key(case["b"], case["fi"], len(seen))
    return r


def alike(x, y):
    return close_scaled(x, y, 1 + np.abs(y).max(initial=0), 1e-9)


def check_grads(r, t, d, exp, n0, nt0, case, word, tag):
    def back(x, m, n):
        o = np.zeros((n,) + x.shape[1:])
        np.add.at(o, m, x)
        return o
    got = [back(t.ij_b, d["_v"], n0), back(t.colors_b, d["_v"], n0), back(t.shade_b, d["_v"], n0), back(t.uv_b, d["_t"], nt0), t.texture_b]
    for name, x, y in zip(("ij_b", "colors_b", "shade_b", "uv_b", "texture_b"), got, exp):
        if not alike(x, y):
            r.bad(tag + ":" + name + ":" + (word[-1][0] if word else "window"), "%s word %s: %s %s is\n%s\ninstead of\n%s" % (case, word, tag, name, x, y))
            return
