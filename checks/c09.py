"""C09: memory safety, defined behaviour and termination on degenerate, tiny, huge and off-screen scenes (sanitizer build)."""
import itertools

import numpy as np

from dlib import Ref, dr, hashed, scene
from runner import R

ID = "C09"
LEVEL = "exploration"
VARIANT = "asan"
CASE_LIMIT = 150
RULE = ("all triples of points from a set mixing on-screen, coincident, collinear, sub-pixel and far (up to 1e300) coordinates x texturing x sigma x flags; image shapes down to 1x1 and wider than 16 bits; channel counts up to 40000; texture shapes down to 1x1 "
        "with uv up to 1e300; each rendered in image and residual mode and back-propagated under AddressSanitizer and UBSan (float-cast-overflow included) with canaries "
        "around every output buffer, or buffers of exactly the size of the image, in turn; images compared with the reference where coordinates are at most 1e7; distinct = distinct images")
ASSUME = ["division by zero and NaN values that do not change memory or control flow are allowed for zero-area geometry", "values finite; faces valid"]
FAR = (1e3, 32766.5, 32768.25, 40000.0, 65537.0, 70001.5, 1e6, 2.0 ** 31 + 1, 5e9, 1e12, 1e19, 1e100, 1e300)
FL = [dict(clockwise=bool(c), backface_culling=bool(b), strict_edge=bool(s), perspective_correct=bool(p), integer_pixel_centers=bool(i))
      for c, b, s, p, i in itertools.product((0, 1), repeat=5)]


def cases(tier):
    th = tier == "thorough"
    for a in range(11):
        for b in range(11):
            yield dict(kind="degenerate", a=a, b=b)
    for m in range(len(FAR)):
        for n in range(8):
            yield dict(kind="far", m=m, n=n)
    for e in range(1, 17 if th else 13):
        yield dict(kind="tiny", e=e)
    for h, w in itertools.product((1, 2, 3), repeat=2):
        yield dict(kind="shape", h=h, w=w)
    for n in range(6):
        yield dict(kind="wide", n=n)
    for h, w in itertools.product((1, 2, 3), repeat=2):
        yield dict(kind="uv", h=h, w=w)
    for n in range(6):
        yield dict(kind="sigma", n=n)
    for n in range(6):
        yield dict(kind="depth", n=n)
    for c in (7, 64, 129, 257, 10922, 10923, 32767, 32768, 40000) + ((65535, 65537, 70000) if th else ()):
        for tx in (0, 1):
            yield dict(kind="channels", c=c, tx=tx)


def exercise(r, s, sigma, tag, text, compare=False, border_ok=False):
    """All four entry points on buffers with canaries."""
    r.n += 1
    h, w, c = s.height, s.width, s.nb_colors
    # even runs: buffers of exactly the size of the image, so that the sanitizer reports reads outside; odd runs: canaries
    pad = r.n % 2
    rows = slice(pad, h + pad)

    def buffer(*shape, value):
        return np.full((shape[0] + 2 * pad,) + shape[1:], value)

    big, zb, eb = buffer(h, w, c, value=12345.0), buffer(h, w, value=12345.0), buffer(h, w, value=12345.0)
    image, z, err = big[rows], zb[rows], eb[rows]
    dr.renderScene(s, sigma, image, z, False, None, None)
    r.key(image.tobytes())
    if compare:
        ref = Ref(s, exact=False)
        ri, rz, _, amb = ref.render(sigma)
        ok = (amb & 15) == 0
        d = np.abs(image - ri).max(axis=2)
        if (ok & ~(d <= 1e-5)).any():
            y, x = np.argwhere(ok & ~(d <= 1e-5))[0]
            r.bad(tag + ":image", "pixel (%d,%d): got %s expected %s" % (y, x, image[y, x], ri[y, x]))
        if ref.owner.max() >= 0:
            r.count("visible")
    if s.backface_culling and not s.perspective_correct:
        gb = buffer(h, w, c, value=0.5)
        s.clear_gradients()
        dr.renderSceneB(s, sigma, image, z, gb[rows], False, None, None, None)
        if pad and not ((gb[0] == 0.5).all() and (gb[-1] == 0.5).all()):
            r.bad(tag + ":canary", "image_b written outside")
    obs = np.full((h, w, c), 0.25)
    dr.renderScene(s, sigma, image, z, True, obs, err)
    if s.backface_culling and not s.perspective_correct:
        geb = buffer(h, w, value=0.5)
        s.clear_gradients()
        dr.renderSceneB(s, sigma, image, z, None, True, obs, err, geb[rows])
        if pad and not ((geb[0] == 0.5).all() and (geb[-1] == 0.5).all()):
            r.bad(tag + ":canary", "err_buffer_b written outside")
    for n, a in (("image", big), ("z_buffer", zb), ("err_buffer", eb)):
        if pad and not ((a[0] == 12345).all() and (a[-1] == 12345).all()):
            r.bad(tag + ":canary", "%s written outside" % n)
    if r.msgs:
        r.bad("detail", text)
    return bool(r.msgs)


def tri(pts, depths, i, fl, **kw):
    tex = bool(i & 1)
    c = 1 + (i // 2) % 3
    opt = dict(width=4, height=5, nb_colors=c)
    if tex:
        opt.update(textured=[True] * (len(pts) // 3), texture=hashed(2 * 3 * c, 7).reshape(2, 3, c), uv=hashed(2 * len(pts), 4).reshape(-1, 2) * 3 - 0.5)
    opt.update(kw)
    return scene(pts, np.arange(len(pts)).reshape(-1, 3), depths, **opt, **fl)


def check(case):
    r = R()
    r.n = 0
    k = case["kind"]
    if k == "degenerate":
        P = [(0, 0), (1, 1), (2, 2), (2, 0), (0, 3), (1.5, 1.5), (1, 1 + 1e-9), (2, 2.0000000000000004), (-3, 1), (7, 1), (1e-320, 1)]
        for c in range(11):
            for fi, fl in enumerate(FL):
                for sigma in (0, 1.5):
                    pts = [P[case["a"]], P[case["b"]], P[c], (0.25, 3.5), (3.5, 0.5), (3.25, 4.75)]
                    i = fi + c
                    if exercise(r, tri(pts, (1, 2, 3, 2.5, 2.5, 2.5), i, fl), sigma, "degenerate", "points %s flags %s sigma %s i %d" % (pts, fl, sigma, i)):
                        return r
    elif k == "far":
        m = FAR[case["m"]]
        Q = [(-m, -m), (m, -m), (0.5, m), (-m, 0.25), (m, 2.25), (1.25, -m), (-1.5 * m, 3 * m), (2, 2)]
        a = Q[case["n"]]
        for b, c in itertools.permutations([q for q in Q if q != a] + [(0, 4.5), (3.25, 1)], 2):
            for fi in (0, 1 + 2, 5, 8, 9, 12, 19, 24, 29, 31):
                fl = FL[fi]
                for sigma in (0, 1.25):
                    i = fi + int(b[0] > 0)
                    s = tri([a, b, c], (1, 2, 3) if m < 1e7 and not fl["perspective_correct"] else (1, 1, 1), i, fl)
                    # beyond ~1e5 the interpolated attributes lose digits: compare coverage through constant attributes
                    s.colors = np.full_like(s.colors, 0.75)
                    s.shade = np.full_like(s.shade, 0.5)
                    s.texture = np.full_like(s.texture, 0.5)
                    if exercise(r, s, sigma, "far", "points %s flags %s sigma %s i %d" % ([a, b, c], fl, sigma, i), compare=m <= 70001.5):
                        return r
    elif k == "tiny":
        e = 10.0 ** -case["e"]
        for cx, cy in itertools.product((1, 1.25, -0.5), (2, 1.5)):
            for t in itertools.permutations([(0, 0), (1, 0), (0.25, 1), (-1, -0.5), (3, 3)], 3):
                pts = [(cx + e * x, cy + e * y) for x, y in t]
                for fi in (0, 1, 4, 8, 12, 17, 25, 31):
                    for sigma in (0, 0.75):
                        if exercise(r, tri(pts, (1, 2, 3), fi, FL[fi]), sigma, "tiny", "points %s flags %s sigma %s" % (pts, FL[fi], sigma), compare=case["e"] <= 4):
                            return r
    elif k == "shape":
        h, w = case["h"], case["w"]
        for t in itertools.combinations([(-1, -1), (0, 0), (w, 0), (0, h), (w + 2, h + 1.5), (w / 2, -3), (0.25, 0.25)], 3):
            for rev in (1, -1):
                for fi, fl in enumerate(FL):
                    for sigma in (0, 0.5, 3):
                        s = tri(list(t)[::rev], (1, 2, 3), fi, fl, width=w, height=h)
                        if exercise(r, s, sigma, "shape", "%s points %s flags %s sigma %s" % (case, t, fl, sigma), compare=True):
                            return r
    elif k == "wide":
        n = case["n"]
        big = 40001
        h, w = ((1, big), (2, big), (big, 1), (big, 2), (1, 70000), (70000, 1))[n]
        for fi in (0, 4, 8, 12, 28):
            for t in ([(-1, -1), (w + 1, -1), (w / 2, h + 1)], [(w - 5, -0.5), (w + 3, h / 2), (w - 4, h + 0.5)], [(-2, h - 6), (w + 0.5, h - 5), (w / 2, h + 4)]):
                for rev in (1, -1):
                    s = tri(t[::rev], (1, 2, 3), fi, FL[fi], width=w, height=h)
                    s.colors = np.full_like(s.colors, 0.75)
                    s.texture = np.full_like(s.texture, 0.5)
                    s.shade = np.full_like(s.shade, 0.5)
                    for sigma in (0, 1.5):
                        if exercise(r, s, sigma, "wide", "%s points %s flags %s sigma %s" % (case, t, FL[fi], sigma), compare=True):
                            return r
    elif k == "uv":
        h, w = case["h"], case["w"]
        vals = (-1e300, -1e10, -3.0, 0.0, 0.5, 2.5e9, 1e18, 1e300)
        for u in itertools.product(vals, repeat=3):
            i = int(abs(hash(u)) % 8)
            for c in (1, 3):
                for fi in (0, 8, 12, 28):
                    v = (vals[i], 0.25, vals[(i * 3) % 8])
                    s = scene([(-1, -1), (6, 0), (0, 7)], [(0, 2, 1) if not FL[fi]["clockwise"] else (0, 1, 2)], (1, 2, 3), width=4, height=4, nb_colors=c, textured=[True],
                              uv=list(zip(u, v)), texture=hashed(h * w * c, 3).reshape(h, w, c), **FL[fi])
                    if exercise(r, s, 1.5 * (i % 2), "uv", "%s uv %s %s" % (case, u, v)):
                        return r
    elif k == "sigma":
        sg = (1e-300, 1e-9, 30.0, 1e4, 1e6, 1e300)[case["n"]]
        for t in itertools.permutations([(0, 0), (3.5, 0.25), (1, 3), (-20, 5), (30, -4)], 3):
            for fi in (0, 8, 12, 24, 28):
                for tx in (0, 1):
                    if exercise(r, tri(t, (1, 2, 3), tx + 2, FL[fi]), sg, "sigma", "points %s sigma %s flags %s" % (t, sg, FL[fi]), compare=1e-10 < sg < 1e5):
                        return r
    elif k == "channels":
        for fi in (8, 12, 28, 0, 10):
            for sigma in (0, 1.5):
                for t in ([(-1, -1), (3.5, -0.5), (0.25, 2.5)], [(0.25, 2.5), (3.5, -0.5), (-1, -1)]):
                    kw = dict(width=3, height=2, nb_colors=case["c"])
                    if case["tx"]:
                        kw["texture"] = hashed(6 * case["c"], 7).reshape(2, 3, case["c"])
                    s = tri(t, (1, 2, 3), case["tx"], FL[fi], **kw)
                    if exercise(r, s, sigma, "channels", "%s points %s flags %s sigma %s" % (case, t, FL[fi], sigma), compare=True):
                        return r
    elif k == "depth":
        ds = (0.0, 1e-300, 1.0, 1e300, 1.7e308, 5e-324, -1.0, -0.0)
        for d in itertools.product(ds, repeat=3):
            for fi in (0, 8, 12, 10, 14, 30):
                for tx in (0, 1):
                    pts = [(0, 0), (4, 0.25), (1, 4)] if case["n"] % 2 else [(0, 0), (1, 4), (4, 0.25)]
                    if exercise(r, tri(pts, d, tx + 2 * (case["n"] // 2), FL[fi]), 0.75 * (fi % 4 != 0), "depth", "depths %s flags %s" % (d, FL[fi])):
                        return r
    return r
