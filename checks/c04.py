"""C04: antialiased edges against the reference model."""
import itertools

import numpy as np

from dlib import Ref, compare_forward, hashed, scene
from runner import R
from scenes import ALLFLAGS, DEPTHS, LAT, LATX, SHAPES, fan, flags_of, multi, single

ID = "C04"
LEVEL = "exploration"
RULE = ("all ordered lattice triples (single triangles: every edge-flag subset, coloured/textured), all ordered pairs and triples of 8 triangle shapes with all depth layouts including equal depths zero, "
        "all face orders, edge-flag masks, coloured/textured combinations, fans with shared vertices, x sigma values x all 32 flag settings; "
        "every unambiguous pixel compared with the reference; distinct = distinct antialiased images")
ASSUME = ["pixels exactly on an edge line end (band limits), on depth ties (except where all depths are zero) or painter's order ties are not compared"]
SIG = (0.5, 1.0, 1.75, 4.0)
OBS = False


def cases(tier):
    th = tier == "thorough"
    lat = LATX if th else LAT
    for a, b in itertools.product(range(len(lat)), repeat=2):
        if a != b:
            yield dict(kind="single", lat="X" if th else "Q", a=a, b=b)
    for i, j in itertools.product(range(len(SHAPES)), repeat=2):
        for d in range(4 if th else 2):
            yield dict(kind="pair", i=i, j=j, d=d)
    for p in itertools.permutations(range(3)):
        for q in range(8):
            yield dict(kind="triple", p=p, q=q)
    for n in (3, 4, 5, 7):
        for i in range(10):
            yield dict(kind="fan", n=n, i=i)
    for h, w in itertools.product((1, 2, 4), repeat=2):
        for c in (1, 2, 3, 4, 6):
            yield dict(kind="shape", h=h, w=w, c=c)


def one(r, s, sigma, tag, text):
    r.n += 1
    ref = Ref(s, exact=False)
    if OBS:
        obs = hashed(s.height * s.width * s.nb_colors, 13 + r.n % 3).reshape(s.height, s.width, s.nb_colors) * 2
        keep = obs.copy()
        img, z, err = s.render_error(obs, sigma)
        compare_forward(r, tag, s, img, z, ref, sigma, obs=obs, err=err)
        if not np.array_equal(keep, obs):
            r.bad(tag + ":obs-modified", "observation changed")
        r.key(np.round(err, 8).tobytes())
    else:
        img, z = s.render(sigma)
        compare_forward(r, tag, s, img, z, ref, sigma)
        r.key(np.round(img, 8).tobytes())
    if ref.stats[1]:
        r.count("blended")
    if r.msgs:
        r.bad("detail", text)
    return bool(r.msgs)


def check(case):
    r = R()
    r.n = 0
    k = case["kind"]
    if k == "single":
        lat = LATX if case["lat"] == "X" else LAT
        a, b = case["a"], case["b"]
        for c in range(len(lat)):
            if c in (a, b):
                continue
            for fi, fl in enumerate(ALLFLAGS):
                i = a + 5 * b + 7 * c + 11 * fi
                s = single(lat, a, b, c, i, fl)
                if one(r, s, SIG[(i // 3) % 4], "single", "case %s c=%d i=%d flags %s sigma %s" % (case, c, i, fl, SIG[(i // 3) % 4])):
                    return r
    elif k == "pair":
        sh = [SHAPES[case["i"]], SHAPES[case["j"]]]
        for fi, fl in enumerate(ALLFLAGS):
            for j in range(4 if fl["perspective_correct"] else 6):
                d = [(0, 0, 0), (0, 0, 0) if j == 4 else (0, 0.5, 0.25)] if j > 3 else [DEPTHS[(case["d"] * 2 + j) % 4], tuple(x + y for x, y in zip(DEPTHS[(case["d"] + 3 * j + fi) % 4], (0.3, 0.0, 0.7)))]
                for sigma in SIG[:3]:
                    i = fi + 13 * j + case["i"]
                    s = multi(sh, d, i, fl, textured=(i // 2) % 4, edgemask=(i * 37 + 5 * case["j"]) % 64 if i % 3 else 63)
                    if one(r, s, sigma, "pair", "case %s flags %s j=%d sigma=%s" % (case, fl, j, sigma)):
                        return r
    elif k == "triple":
        base = [SHAPES[(case["q"] + m) % 8] for m in (0, 2, 5)]
        for dp in itertools.permutations((1.0, 2.25, 3.5)):
            sh = [base[m] for m in case["p"]]
            d = [(dp[m] + 0.1 * m, dp[m] + 0.9, dp[m] - 0.3) for m in case["p"]]
            for fi, fl in enumerate(ALLFLAGS):
                for em in (511, 0b101011110, 0b010100111):
                    s = multi(sh, d, fi, fl, textured=(fi + case["q"]) % 8, edgemask=em)
                    if one(r, s, SIG[(fi + em) % 4], "triple", "case %s depths %s flags %s edges %s" % (case, dp, fl, em)):
                        return r
    elif k == "fan":
        for fl in ALLFLAGS:
            for sigma in SIG:
                s = fan(case["n"], case["i"], fl)
                if one(r, s, sigma, "fan", "case %s flags %s sigma %s" % (case, fl, sigma)):
                    return r
                if case["i"] % 2:
                    s.edgeflags = np.ones_like(s.edgeflags)
                    if one(r, s, sigma, "fan", "case %s all edges flags %s sigma %s" % (case, fl, sigma)):
                        return r
    elif k == "shape":
        h, w, c = case["h"], case["w"], case["c"]
        bgi = hashed(h * w * c, 3).reshape(h, w, c)
        for fi, fl in enumerate(ALLFLAGS):
            for sigma in SIG:
                for bg in (dict(background_image=bgi), dict(background=hashed(c, 2)), dict(background_image=bgi.transpose(1, 0, 2).copy().transpose(1, 0, 2))):
                    s = multi([SHAPES[2], SHAPES[6], SHAPES[5]], [DEPTHS[0], DEPTHS[1], (0.2, 0.3, 6)], fi, fl, textured=fi % 8, width=w, height=h, nb_colors=c, texture=hashed(2 * 3 * c, 7).reshape(2, 3, c), **bg)
                    if one(r, s, sigma, "shape", "case %s flags %s sigma %s %s" % (case, fl, sigma, list(bg))):
                        return r
    return r
