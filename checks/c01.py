"""C01: visibility, interpolation and z-buffer without antialiasing, against the per-pixel reference model."""
import itertools

import numpy as np

from dlib import Ref, compare_forward, hashed, scene
from runner import R

ID = "C01"
LEVEL = "exploration"
RULE = ("exhaustive enumeration of triangles / pairs / triples of triangles on dyadic lattices x depth patterns x face orders x all "
        "flag settings x channel counts x image shapes, each rendered by the real code and compared pixel by pixel with an independent "
        "reference; non-trivial: at least one triangle visible; distinct = distinct (owner map, flags) outcomes")
ASSUME = ["pixels where two fragments have depths within 1e-9 (relative) are not compared"]

FLAGS = [dict(clockwise=bool(c), backface_culling=bool(b), strict_edge=bool(s), perspective_correct=bool(p), integer_pixel_centers=bool(i))
         for c, b, s, p, i in itertools.product((0, 1), repeat=5)]


def lattice(xs, ys):
    return [(x, y) for x in xs for y in ys]


LAT_Q = lattice((-0.75, 0.5, 2.0, 3.25), (-1.0, 0.75, 1.5, 4.25))
LAT_T = lattice((-0.75, 0.0, 0.5, 2.0, 3.25), (-1.0, 0.75, 1.5, 2.0, 4.25))
SHAPES = [((-1, -1), (6, 0), (0.5, 5)), ((0, 0), (4, 0), (0, 4)), ((1, 0.25), (3.5, 1.5), (0.75, 3)), ((3, 3), (3, 0), (0, 3)),
          ((0.5, 0.5), (3.5, 2), (1, 2.25)), ((2, -3), (2.5, 7), (-1, 2))]
DEPTHS1 = [(1, 1, 1), (1, 2, 4), (3, 1, 0.5), (-1, 2, 3), (2, 2, -0.25), (1, -1e-4, 2), (-1e-9, 3, 1), (2, 1, -5e-324)]
DEPTHS0 = [(0, 1, 2), (0, 0, 0), (1, -0.0, 2), (5e-324, 1, 3)]


def cases(tier):
    th = tier == "thorough"
    lat = LAT_T if th else LAT_Q
    # single triangles: every ordered triple of lattice points, every flag setting
    for a in range(len(lat)):
        for b in range(len(lat)):
            yield dict(kind="single", a=a, b=b, lat="T" if th else "Q")
    # two overlapping triangles: every pair of shapes and orientation, depth layouts, both orders
    for i, j in itertools.product(range(len(SHAPES)), repeat=2):
        for fl in range(4):
            yield dict(kind="pair", i=i, j=j, rev=fl)
    # three triangles, all orders, all constant and tilted depth assignments
    for perm in itertools.permutations(range(3)):
        for d in range(6):
            yield dict(kind="triple", perm=perm, d=d)
    # channels, image shapes, backgrounds, dtypes
    for h, w in itertools.product((1, 2, 3, 5), repeat=2):
        for c in (1, 2, 3, 4, 7):
            yield dict(kind="shape", h=h, w=w, c=c)
    for n in (0, 1, 2, 7, 40) + ((200,) if th else ()):
        yield dict(kind="many", n=n)


def one(r, s, exact=True, tag=""):
    img, z = s.render(sigma=0)
    ref = Ref(s, exact=exact)
    compare_forward(r, tag, s, img, z, ref, 0.0)
    if ref.owner.max() >= 0:
        r.key(ref.owner.tobytes(), s.clockwise, s.backface_culling, s.strict_edge, s.perspective_correct, s.integer_pixel_centers)
        r.count("nontrivial")
    r.count("renders")


def check(case):
    r = R()
    r.n = 0
    k = case["kind"]
    if k == "single":
        lat = LAT_T if case["lat"] == "T" else LAT_Q
        for c in range(len(lat)):
            for fi, fl in enumerate(FLAGS):
                # depth pattern rotates with the flags so that every (shape, flag) meets one, and every flag meets every pattern
                ds = DEPTHS1 + ([] if fl["perspective_correct"] else DEPTHS0)
                d = ds[(case["a"] + 3 * case["b"] + 5 * c + fi) % len(ds)]
                s = scene([lat[case["a"]], lat[case["b"]], lat[c]], [(0, 1, 2)], d, width=4, height=4, **fl)
                r.n += 1
                one(r, s, tag="single")
                if r.msgs:
                    r.bad("detail", "vertices %s depths %s flags %s" % ((lat[case["a"]], lat[case["b"]], lat[c]), d, fl))
                    return r
    elif k == "pair":
        A, B = SHAPES[case["i"]], SHAPES[case["j"]]
        if case["rev"] & 1:
            A = A[::-1]
        if case["rev"] & 2:
            B = B[::-1]
        for dA, dB in itertools.product([(2, 2, 2), (1, 3, 5), (5, 3, 1), (0.5, 4, 0.5), (-1, 1, 1)],
                                        [(1.5, 1.5, 1.5), (4, 4.5, 5), (3, 1, 2.5), (0.25, 6, 3)]):
            for fl in FLAGS:
                for order in ((0, 1), (1, 0)):
                    f = [((0, 1, 2), (3, 4, 5))[o] for o in order]
                    s = scene(A + B, f, dA + dB, width=5, height=4, nb_colors=2, **fl)
                    r.n += 1
                    one(r, s, tag="pair")
                    if r.msgs:
                        r.bad("detail", "A=%s B=%s depths %s %s flags %s order %s" % (A, B, dA, dB, fl, order))
                        return r
    elif k == "triple":
        V = SHAPES[0] + SHAPES[2] + SHAPES[4] + SHAPES[3][::-1]
        ds = [list(p) for p in itertools.permutations((1.0, 2.0, 3.0))][case["d"]]
        for tilt in (0, 0.5, -0.25):
            dep = []
            for t in range(3):
                dep += [ds[t], ds[t] + tilt * (t + 1), ds[t] - tilt * 0.5]
            dep += [2.25, 0.75, 1.25]
            for fl in FLAGS:
                base = [(0, 1, 2), (3, 4, 5), (6, 7, 8)]
                f = [base[p] for p in case["perm"]]
                for pos in range(4):
                    s = scene(V, f[:pos] + [(9, 10, 11)] + f[pos:], dep, width=5, height=5, nb_colors=1, **fl)
                    r.n += 1
                    one(r, s, tag="triple")
                    # shared vertices: re-use the vertices of two triangles
                    s = scene(V, f[:pos] + [(0, 4, 8), (9, 5, 1)] + f[pos:], dep, width=5, height=5, nb_colors=1, **fl)
                    r.n += 1
                    one(r, s, tag="triple", exact=False)
                    if r.msgs:
                        r.bad("detail", "flags %s tilt %s pos %s" % (fl, tilt, pos))
                        return r
    elif k == "shape":
        h, w, c = case["h"], case["w"], case["c"]
        V = [(-1.5, -1), (w + 1, 0.25), (0.25, h + 0.5), (w - 0.5, h + 0.75), (0.5, -0.5), (w / 2, h)]
        F = [(0, 2, 1), (1, 2, 3), (4, 5, 3)]
        D = [1, 2, 3, 1.5, 4, 0.5]
        bgi = hashed(h * w * c, 9).reshape(h, w, c)
        colsets = [None, np.full((6, c), 0.5), hashed(6 * c, 4).reshape(6, c) * 1e6 - 5e5, np.asfortranarray(hashed(6 * c, 4).reshape(6, c))]
        for fl in FLAGS:
            for cols in colsets:
                for bg in (dict(background_image=bgi), dict(background=hashed(c, 2)), dict(background_image=np.asfortranarray(bgi)),
                           dict(background_image=np.concatenate([bgi, bgi], axis=1)[:, ::2])):
                    s = scene(V, F, D, width=w, height=h, nb_colors=c, colors=cols, **bg, **fl)
                    before = s.colors.copy()
                    r.n += 1
                    one(r, s, tag="shape", exact=False)
                    if not np.array_equal(before, s.colors):
                        r.bad("input-changed", "colors modified by render")
                    if r.msgs:
                        r.bad("detail", "flags %s bg %s" % (fl, list(bg)))
                        return r
    elif k == "many":
        n = case["n"]
        for salt in range(6):
            u = hashed(max(1, n) * 3 * 3, salt).reshape(-1, 3)
            V = u[:, :2] * [9, 8] - 1
            F = np.arange(3 * n).reshape(n, 3)
            for fl in FLAGS:
                s = scene(V, F, u[:, 2] * 4 + 0.01 - 0.05 * (salt % 2), width=7, height=6, nb_colors=2, **fl)
                r.n += 1
                one(r, s, exact=False, tag="many")
                if r.msgs:
                    r.bad("detail", "n=%d salt=%d flags %s" % (n, salt, fl))
                    return r
    return r
