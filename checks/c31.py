"""C31: render_compare_and_backward against the reference residual and its exact gradient, for every kind of mask."""
import itertools

import numpy as np

from dlib import Ref, close, close_scaled, diff_text, hashed
from runner import KNOWN, R
from scenes import DEPTHS, SHAPES, fan, multi

ID = "C31"
LEVEL = "exploration"
RULE = ("pairs of triangle shapes and fans x flags x sigma {0, 1, 1.75} x both residual modes x masks {none, ones, zeros, binary, fractional, negative and larger than one} x clear_gradients on/off x make_copies on/off; "
        "image, z-buffer and residual against the reference, loss against the sum of the weighted residual, gradients against the exact derivative of that loss; distinct = distinct gradients")
ASSUME = ["the mask is zero on pixels where the reference reports an exact tie or a texture kink"]
FL = [dict(clockwise=bool(c), strict_edge=bool(s), integer_pixel_centers=bool(i)) for c, s, i in itertools.product((0, 1), repeat=3)]
NAMES = ("ij_b", "colors_b", "uv_b", "shade_b", "texture_b")


def masks(h, w):
    yield "none", None
    yield "ones", np.ones((h, w))
    yield "zeros", np.zeros((h, w))
    yield "binary", (hashed(h * w, 3) > 0.5).astype(float).reshape(h, w)
    yield "fractional", hashed(h * w, 5).reshape(h, w) / 3
    yield "signed", 4 * hashed(h * w, 6).reshape(h, w) - 1.5


def cases(tier):
    for i, j in itertools.product(range(len(SHAPES)), repeat=2):
        yield dict(kind="pair", i=i, j=j)
    for n in (3, 4, 5, 7):
        for i in range(6):
            yield dict(kind="fan", n=n, i=i)


def scenes(case):
    if case["kind"] == "fan":
        for fi, fl in enumerate(FL):
            yield fan(case["n"], case["i"], fl), fi
    else:
        sh = [SHAPES[case["i"]], SHAPES[case["j"]]]
        for fi, fl in enumerate(FL):
            d = [DEPTHS[fi % 4], tuple(x + y for x, y in zip(DEPTHS[(case["i"] + fi) % 4], (0.3, 0.0, 0.7)))]
            kw = dict(background_image=hashed(60, 3)[:20 * (2, 3, 1)[fi % 3]].reshape(4, 5, -1)) if fi % 2 else {}
            yield multi(sh, d, fi, fl, textured=(fi + case["j"]) % 4, edgemask=63, **kw), fi


def check(case):
    r = R()
    r.n = 0
    for s, fi in scenes(case):
        h, w, c = s.height, s.width, s.nb_colors
        for sigma, aa in itertools.product((0.0, 1.0, 1.75), (False, True)):
            ref = Ref(s, exact=False)
            obs = hashed(h * w * c, 13 + fi % 3).reshape(h, w, c) * 2
            image, z, err, amb = ref.render(sigma, obs if aa else None)
            i0, z0, _, amb0 = ref.render(0)
            for m, (mname, mask) in enumerate(masks(h, w)):
                if mask is not None:
                    mask = mask * ((amb | amb0) == 0)
                elif ((amb | amb0) != 0).any():
                    r.count("no mask with ambiguous pixels left out")
                    continue
                weight = np.ones((h, w)) if mask is None else mask
                text = "%s flags %d sigma=%g antialiase_error=%s mask=%s" % (case, fi, sigma, aa, mname)
                clear, copies = bool((m + fi) % 2), not (m == 3 and fi % 2)
                s.clear_gradients()
                old = {k: hashed(getattr(s, k).size, 4).reshape(getattr(s, k).shape) - 0.5 for k in NAMES}
                for k in NAMES:
                    getattr(s, k)[...] = old[k]
                keep = obs.copy(), None if mask is None else mask.copy()
                out = s.render_compare_and_backward(obs, sigma=sigma, antialiase_error=aa, mask=mask, clear_gradients=clear, make_copies=copies)
                r.n += 1
                gi, gz, ge, loss = out
                free = (amb | amb0) == 0
                if aa:
                    wi, we = i0, err * weight
                    adj, gobs = weight, obs
                else:
                    wi, we = image, (image - obs) ** 2 * weight[..., None]
                    adj, gobs = 2 * (image - obs) * weight[..., None], None
                if copies:
                    checks = (("image", gi, wi), ("z_buffer", gz, z0), ("residual", ge, we))
                else:
                    checks = (("residual", ge, we),) if not aa else ()
                for name, a, b in checks:
                    if np.shape(a) != np.shape(b):
                        r.bad(name, "%s: shape %s expected %s" % (text, np.shape(a), np.shape(b)))
                        return r
                    f = free if np.ndim(b) == 2 else free[..., None]
                    good = (a == b) | (np.abs(a - b) <= 1e-8 * (1 + np.abs(b))) | ~f
                    if not good.all():
                        r.bad(name, diff_text(name, a, b, ok=good) + " " + text)
                        return r
                total = np.where(free if np.ndim(we) == 2 else free[..., None], we, 0).sum()
                if not close(loss, total, 1e-8):
                    r.bad("loss", "%s: loss %r, the weighted residual sums to %r" % (text, loss, float(total)))
                    return r
                if not np.array_equal(obs, keep[0]) or (mask is not None and not np.array_equal(mask, keep[1])):
                    r.bad("mutated", text)
                g = ref.grad(sigma, adj, gobs)
                scale = max([1.0] + [np.abs(v).max() for v in g.values() if v.size])
                t = {k: getattr(s, k) - (0 if clear else old[k]) for k in NAMES if k != "texture_b" or s.texture.ndim == 3}
                wrong = [k for k in t if not close_scaled(t[k], g[k], scale, 2e-9)]
                if wrong and aa:
                    g2 = ref.grad(sigma, adj, gobs, defect=True)
                    if all(close_scaled(t[k], g2[k], scale, 2e-9) for k in t):
                        wrong = []
                        r.bad("residual-edge-colour-gradient", text)
                if wrong:
                    r.bad("gradient", diff_text(wrong[0], t[wrong[0]], g[wrong[0]]) + " " + text)
                    return r
                r.key(np.round(t["ij_b"], 7).tobytes())
    return r
