"""C03: bilinear texture lookup, border clamping, shade, perspective, against the reference model."""
import itertools

import numpy as np

from dlib import Ref, compare_forward, hashed, scene
from runner import R

ID = "C03"
LEVEL = "exploration"
RULE = ("all texture sizes 1..5 x 1..5 (quick: a subset of the sizes) x channel counts x u- and v-triples at the three corners from a set reaching inside, onto and far "
        "outside the texture x perspective/orientation/pixel-centre flags, plus scenes mixing textured and coloured faces with uv faces "
        "different from the vertex faces; every pixel compared with the reference; distinct = distinct (image, flags)")
TRIS = [((-1, -1), (8, -0.5), (-0.5, 9)), ((0.5, 0), (4, 1.25), (1, 4.75)), ((-2, 3), (2.25, -1), (6, 4))]


def uset(n):
    return [-1000.5, -0.75, 0.0, 0.5, float(n - 1), n - 0.5, n + 3.25]


def cases(tier):
    sizes = (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 8)
    for h, w in itertools.product(sizes, repeat=2):
        for a in range(7):
            yield dict(kind="one", h=h, w=w, a=a)
    for n in range(12):
        for p in range(6):
            yield dict(kind="mix", n=n, p=p)


def flagset():
    return [dict(clockwise=bool(c), perspective_correct=bool(p), integer_pixel_centers=bool(i)) for c, p, i in itertools.product((0, 1), repeat=3)]


def one(r, s, tag, text):
    r.n += 1
    img, z = s.render(sigma=0)
    ref = Ref(s, exact=False)
    compare_forward(r, tag, s, img, z, ref, 0.0, tol=1e-7)
    r.key(np.round(img, 6).tobytes())
    if ref.owner.max() >= 0:
        r.count("nontrivial")
    if r.msgs:
        r.bad("detail", text)


def check(case):
    r = R()
    r.n = 0
    if case["kind"] == "one":
        h, w = case["h"], case["w"]
        us, vs = uset(w), uset(h)
        i = 0
        for c in (1, 3):
            tex = 0.25 + hashed(h * w * c, 5).reshape(h, w, c)
            for b, d in itertools.product(range(7), repeat=2):
                i += 1
                u = (us[case["a"]], us[b], us[d])
                # v triple rotates so that every (u corner, v corner) pair of classes meets
                for fl in flagset():
                    i += 1
                    v = [vs[(k * (1 + i % 5) + case["a"] + 2 * b + 3 * d + i) % 7] for k in range(3)]
                    tri = TRIS[i % 3]
                    if fl["clockwise"] != (i % 3 != 2 or True):
                        tri = (tri[0], tri[2], tri[1])
                    s = scene(tri, [(0, 1, 2)], (1, 2.5, 4), width=5, height=5, nb_colors=c, textured=[True], uv=list(zip(u, v)),
                              shade=[0.5, 1.25, 0.25] if i % 2 else [1, 1, 1], texture=tex, **fl)
                    one(r, s, "one", "texture %dx%dx%d u=%s v=%s flags=%s" % (h, w, c, u, v, fl))
                    if r.msgs:
                        return r
    else:
        n = case["n"]
        V = np.concatenate([np.array(TRIS[k % 3]) + [0.25 * k, 0] for k in range(4)])
        for fl in flagset():
            F = np.arange(12).reshape(4, 3)
            if not fl["clockwise"]:
                F = F[:, ::-1]
            perm = list(itertools.permutations(range(4)))[4 * case["p"]]
            F = F[list(perm)]
            h, w = [(1, 1), (2, 2), (3, 2), (2, 5), (4, 4), (7, 3)][n % 6]
            for c in (1, 2, 4):
                for mask in range(16):
                    t = np.array([bool(mask >> k & 1) for k in range(4)])
                    nuv = 5
                    uv = hashed(nuv * 2, n).reshape(nuv, 2) * [w + 1, h + 1] - 0.75
                    fu = (np.arange(12).reshape(4, 3) * 3 + n) % nuv
                    shaded = t | (np.arange(4) == n % 4)
                    s = scene(V, F, 1 + hashed(12, n) * 3, width=6, height=5, nb_colors=c, textured=t, shaded=shaded, uv=uv, faces_uv=fu,
                              texture=hashed(h * w * c, n).reshape(h, w, c), **fl)
                    one(r, s, "mix", "case %s mask %d flags %s" % (case, mask, fl))
                    if r.msgs:
                        return r
    return r
