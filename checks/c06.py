"""C06: image gradients against exact derivatives (dual numbers) of the reference model."""
import itertools

import numpy as np

from dlib import Ref, diff_text, hashed
from runner import KNOWN, R
from scenes import DEPTHS, LAT, LATX, SHAPES, fan, multi, single

ID = "C06"
LEVEL = "exploration"
RULE = ("scene families of C04 restricted to the differentiable settings (all lattice triples, pairs, triples, fans with shared vertices, fans with all depths zero, image shapes) x edge masks x coloured/textured "
        "x sigma {0, .5, 1, 1.75, 4} x orientation/strict/pixel-centre flags; gradients for all inputs compared with the exact derivative of the reference (dual numbers); "
        "finiteness also with the adjoint on every pixel; distinct = distinct position gradients")
ASSUME = ["the adjoint is zero on pixels where the reference reports an exact tie (edge, depth, band limit, painter's order) or a kink of the texture interpolation; those pixels are only checked for finiteness",
          "perspective_correct off and backface_culling on (the other settings are refused by the code, see C10)"]
SIG = (0.0, 0.5, 1.0, 1.75, 4.0)
FL = [dict(clockwise=bool(c), strict_edge=bool(s), integer_pixel_centers=bool(i)) for c, s, i in itertools.product((0, 1), repeat=3)]
NAMES = ("ij_b", "colors_b", "uv_b", "shade_b", "texture_b")
OBS = False


def cases(tier):
    th = tier == "thorough"
    lat = LATX if th else LAT
    for a, b in itertools.product(range(len(lat)), repeat=2):
        if a != b:
            yield dict(kind="single", lat="X" if th else "Q", a=a, b=b)
    for i, j in itertools.product(range(len(SHAPES)), repeat=2):
        for d in range(4 if th else 2):
            yield dict(kind="pair", i=i, j=j, d=d)
    for p in itertools.permutations(range(3)):
        for q in range(8):
            yield dict(kind="triple", p=p, q=q)
    for n in (3, 4, 5, 7):
        for i in range(10):
            yield dict(kind="fan", n=n, i=i)
        for i in range(8):
            yield dict(kind="flat", n=n, i=i)
    for h, w in itertools.product((1, 2, 4), repeat=2):
        for c in (1, 2, 3, 4, 6):
            yield dict(kind="shape", h=h, w=w, c=c)
    for h, w in itertools.product((1, 2, 3, 5), repeat=2):
        yield dict(kind="texel", h=h, w=w)
    for n in range(9):
        yield dict(kind="onedge", n=n)
        yield dict(kind="uvdup", n=n)


def scalar_ok(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def back(s, adj, sigma, obs):
    s.clear_gradients()
    if obs is None:
        s.render(sigma)
        s.render_backward(adj.copy())
    else:
        s.render_error(obs, sigma)
        s.render_error_backward(adj.copy())
    return {n: np.array(getattr(s, n)) for n in NAMES if n != "texture_b" or s.texture.ndim == 3}


def one(r, s, sigma, tag, text, exact=False, tol=2e-7):
    r.n += 1
    ref = Ref(s, exact=exact)
    n = s.height * s.width
    if OBS:
        obs = hashed(n * s.nb_colors, 13 + r.n % 3).reshape(s.height, s.width, s.nb_colors) * 2
        full = hashed(n, 17 + r.n % 5).reshape(s.height, s.width) * 2 - 0.9
    else:
        obs = None
        full = hashed(n * s.nb_colors, 17 + r.n % 5).reshape(s.height, s.width, s.nb_colors) * 2 - 0.9
    amb = ref.render(sigma, obs)[3]
    adj = full.copy()
    adj[amb != 0] = 0
    g = ref.grad(sigma, adj, obs)
    scale = max(1.0, max(np.abs(v).max() for v in g.values() if v.size))
    t = back(s, adj, sigma, obs)
    known = False
    if OBS and not all(scalar_ok(v, g[k], tol * scale) for k, v in t.items()):
        g2 = ref.grad(sigma, adj, obs, defect=True)
        if all(scalar_ok(v, g2[k], tol * scale) for k, v in t.items()):
            known = True
            r.bad("residual-edge-colour-gradient", "differentiates only the part of the interpolated edge colour that is proportional to x: %s" % text)
            r.count("known_finding_scenes")
    for k, v in t.items():
        e = g[k]
        if known:
            break
        if not np.isfinite(v).all():
            r.bad(tag + ":nonfinite:" + k, "%s is not finite" % k)
        elif not scalar_ok(v, e, tol * scale):
            r.bad(tag + ":" + k, diff_text(k, v, e) + " (sigma=%g)" % sigma)
    if (amb != 0).any():
        r.count("scenes_with_ambiguous_pixels")
        t2 = back(s, full, sigma, obs)
        for k, v in t2.items():
            if not np.isfinite(v).all():
                r.bad(tag + ":nonfinite:" + k, "%s is not finite (adjoint on every pixel)" % k)
    r.key(np.round(t["ij_b"], 7).tobytes(), np.round(t["colors_b"], 7).tobytes())
    if any(np.abs(v).max() > 0 for v in g.values() if v.size):
        r.count("nonzero_gradient")
    bad = [m for m in r.msgs if m[0] not in KNOWN]
    if bad:
        r.bad("detail", text)
    return bool(bad)


def check(case):
    r = R()
    r.n = 0
    k = case["kind"]
    if k == "single":
        lat = LATX if case["lat"] == "X" else LAT
        a, b = case["a"], case["b"]
        for c in range(len(lat)):
            if c in (a, b):
                continue
            for fi, fl in enumerate(FL):
                for q in range(2):
                    i = a + 5 * b + 7 * c + 11 * fi + 61 * q
                    sg = SIG[(i // 3) % 5]
                    if one(r, single(lat, a, b, c, i, fl), sg, "single", "case %s c=%d i=%d flags %s sigma %s" % (case, c, i, fl, sg)):
                        return r
    elif k == "pair":
        sh = [SHAPES[case["i"]], SHAPES[case["j"]]]
        for fi, fl in enumerate(FL):
            for j in range(5):
                d = [(0, 0, 0), (0, 0, 0) if fi % 2 else (0, 0.5, 0.25)] if j == 4 else [DEPTHS[(case["d"] * 2 + j) % 4], tuple(x + y for x, y in zip(DEPTHS[(case["d"] + 3 * j + fi) % 4], (0.3, 0.0, 0.7)))]
                for m, sigma in enumerate(SIG[:4]):
                    i = fi + 13 * j + case["i"] + m
                    s = multi(sh, d, i, fl, textured=(i // 2) % 4, edgemask=(i * 37 + 5 * case["j"]) % 64 if i % 3 else 63)
                    if one(r, s, sigma, "pair", "case %s flags %s j=%d sigma=%s" % (case, fl, j, sigma)):
                        return r
    elif k == "triple":
        base = [SHAPES[(case["q"] + m) % 8] for m in (0, 2, 5)]
        for dp in itertools.permutations((1.0, 2.25, 3.5)):
            sh = [base[m] for m in case["p"]]
            d = [(dp[m] + 0.1 * m, dp[m] + 0.9, dp[m] - 0.3) for m in case["p"]]
            for fi, fl in enumerate(FL):
                for em in (511, 0b101011110):
                    s = multi(sh, d, fi, fl, textured=(fi + case["q"]) % 8, edgemask=em)
                    if one(r, s, SIG[(fi + em) % 5], "triple", "case %s depths %s flags %s edges %s" % (case, dp, fl, em)):
                        return r
    elif k == "fan":
        for fl in FL:
            for sigma in SIG:
                s = fan(case["n"], case["i"], fl)
                if one(r, s, sigma, "fan", "case %s flags %s sigma %s" % (case, fl, sigma)):
                    return r
    elif k == "flat":
        n = case["n"]
        for fi, fl in enumerate(FL):
            for sigma in SIG:
                for tex in (0, 1):
                    kw = {}
                    if tex:
                        kw = dict(textured=np.ones(n, bool), shaded=np.arange(n) % 3 > 0, texture=hashed(24, 7).reshape(3, 4, 2), uv=hashed(2 * n + 2, 11).reshape(-1, 2) * [4.2, 3.1] - 0.55, shade=0.5 + hashed(n + 1, fi))
                    s = fan(n, case["i"], fl, flat=True, **kw)
                    if one(r, s, sigma, "flat", "case %s flags %s sigma %s textured %s" % (case, fl, sigma, tex)):
                        return r
    elif k == "shape":
        h, w, c = case["h"], case["w"], case["c"]
        bgi = hashed(h * w * c, 3).reshape(h, w, c)
        for fi, fl in enumerate(FL):
            for sigma in SIG:
                for bg in (dict(background_image=bgi), dict(background=hashed(c, 2))):
                    s = multi([SHAPES[2], SHAPES[6], SHAPES[5]], [DEPTHS[0], DEPTHS[1], (0.2, 0.3, 6)], fi, fl, textured=fi % 8, width=w, height=h, nb_colors=c, texture=hashed(2 * 3 * c, 7).reshape(2, 3, c), **bg)
                    if one(r, s, sigma, "shape", "case %s flags %s sigma %s %s" % (case, fl, sigma, list(bg))):
                        return r
    elif k == "texel":
        # several pixels (and two faces, and edges) per texel, uv clamped at the border, one-texel textures
        h, w = case["h"], case["w"]
        for fi, fl in enumerate(FL):
            for zoom, off in itertools.product((0.1, 0.4, 3.0, 40.0), (-0.77, 0.13, 0.61)):
                for c in (1, 3):
                    for sigma in SIG[:3]:
                        s = multi([SHAPES[1], SHAPES[5]], [DEPTHS[1], DEPTHS[0]], fi, fl, textured=3, texture=hashed(h * w * c, 7).reshape(h, w, c), nb_colors=c,
                                  uv=off + zoom * hashed(10, 3).reshape(5, 2))
                        if one(r, s, sigma, "texel", "case %s flags %s zoom %s off %s c %d sigma %s" % (case, fl, zoom, off, c, sigma)):
                            return r
    elif k == "uvdup":
        # faces that use the same uv index at several corners
        import itertools as it
        idx = list(it.product(range(3), repeat=3))
        for f0, f1 in it.product(idx, idx[case["n"]::9]):
            for fi, sigma in ((0, 0.0), (3, 1.0), (5, 1.75), (6, 1.0)):
                s = multi([SHAPES[1], SHAPES[5]], [DEPTHS[1], DEPTHS[0]], fi, FL[fi], textured=3, uv=[(0.3, 0.4), (2.7, 0.2), (0.9, 1.6)], faces_uv=[f0, f1])
                if one(r, s, sigma, "uvdup", "faces_uv %s %s flags %s sigma %s" % (f0, f1, FL[fi], sigma)):
                    return r
    elif k == "onedge":
        # integer coordinates: many pixel centres exactly on edges; the band T=0 line runs through pixel centres
        A = [[(0, 0), (4, 0), (0, 3)], [(1, 1), (3, 1), (1, 3)], [(0, 0), (4, 4), (0, 4)], [(2, 0), (4, 2), (2, 4)], [(1, 0), (4, 2), (0, 3)], [(-2, 1), (6, 1), (2, 3)],
             [(1, -2), (1, 6), (3, 2)], [(0, 1), (2, 2), (4, 5)], [(3, 0), (3, 3), (0, 3)]]
        for m in range(9):
            for fi, fl in enumerate(FL):
                for sigma in SIG:
                    for d in ((DEPTHS[0], (1.5, 1.25, 1.75)), (DEPTHS[0], (2.5, 2.75, 3))):
                        s = multi([A[case["n"]], A[m]], d, fi + m, fl, textured=(fi + m) % 4)
                        if one(r, s, sigma, "onedge", "case %s m=%d flags %s sigma %s" % (case, m, fl, sigma), exact=True):
                            return r
    return r
