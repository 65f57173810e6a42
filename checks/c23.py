"""C23: deferred channels against the reference renderer on every subset of channels, both orientations, and all settings."""
import itertools

import numpy as np

import camref
import meshes
from c20 import DIST, LIGHTS, MESHES, POSES, UNITS
from dlib import Ref, close, diff_text, scene
from runner import R
from s3d import Spec

ID = "C23"
LEVEL = "exploration"
RULE = ("library meshes x orientations x poses x {1, 3, 4 colour channels, texture with a seam} x every combination of {culling, perspective_correct, pixel centres} x depth scales x lights: all channels at once against the reference; "
        "then every non-empty subset of the eight channels on two of the sixteen settings, bit-identical to the full set; face ids against the visible face of a direct rendering; channels against barycentric combinations of face attributes; distinct = distinct face id maps and subsets")
ASSUME = ["pixels whose centre is within 1e-9 of an edge or at a depth tie are left out", "the colour channel exists for meshes with vertex colours, the uv channel for textured meshes"]
CH = ("color", "depth", "face_id", "barycentric", "normal", "luminosity", "uv", "xyz")


def cases(tier):
    for m, p, cw, kind in itertools.product(MESHES, range(4 if tier == "thorough" else 2), (False, True), ("c3", "t3", "c1", "c4", "c2", "u3", "v3")):
        yield dict(mesh=m, pose=p, cw=cw, kind=kind)


def expected(sp, scale):
    """channel -> per-corner values (nf, 3, size), 2D reference of the soup."""
    P, d = camref.project(sp.V, sp.E, sp.K, sp.dist)
    nf = len(sp.F)
    ch = dict(depth=(d * scale)[sp.F][:, :, None], face_id=np.repeat(np.arange(nf, dtype=float), 3).reshape(nf, 3, 1), barycentric=np.tile(np.eye(3), (nf, 1, 1)),
              normal=meshes.vertex_normals(sp.V, sp.F, sp.cw)[sp.F], luminosity=sp.luminosity()[sp.F][:, :, None], xyz=sp.V[sp.F])
    if sp.textured:
        ch["uv"] = sp.uv[sp.faces_uv]
    else:
        ch["color"] = sp.colors[sp.F]
    return ch, P, d


def check(case):
    r = R()
    r.n = 0
    j = sum(map(ord, case["mesh"] + case["kind"])) + case["pose"] * 5 + case["cw"]
    for i, (cull, pc, ipc, scale) in enumerate(itertools.product((True, False), (False, True), (True, False), (1.0, 0.375))):
        light, amb = LIGHTS[(i + i // 4 + j) % 4]
        sp = Spec(mesh=case["mesh"], kind=case["kind"], cw=case["cw"], light=light, ambient=amb, pose=POSES[case["pose"]], dist=DIST[(i // 3 + j) % 2], unit=UNITS[(i // 2 + j) % 4],
                  size=((11, 9), (8, 12))[(i // 2 + j) % 2], deform=(i // 2) % 2, cull=cull, pc=pc, ipc=ipc, sigma=0.0)
        text = "%s culling=%s perspective_correct=%s integer_pixel_centers=%s depth_scale=%g" % (case, cull, pc, ipc, scale)
        sc, cam = sp.make_scene(), sp.camera()
        d = sc.render_deferred(cam, depth_scale=scale, backface_culling=cull)
        r.n += 1
        ch, P, dep = expected(sp, scale)
        if set(d) != set(ch):
            r.bad("channels", "%s: channels %s expected %s" % (text, sorted(d), sorted(ch)))
            return r
        s2, ref2 = sp.compose()
        if sp.margin < 1e-7:
            continue
        img2, z2, _, amb2 = ref2.render(0)
        owner = np.where(np.isfinite(z2), ref2.owner, -1)
        nf = len(sp.F)
        w, h = sp.size
        ok0 = (amb2 & 15) == 0
        for k, v in ch.items():
            size = v.shape[2]
            s = scene(P[sp.F].reshape(-1, 2), np.arange(3 * nf).reshape(nf, 3), dep[sp.F].reshape(-1), width=w, height=h, nb_colors=size, colors=v.reshape(3 * nf, size),
                      edgeflags=np.zeros((nf, 3), bool), background=np.full(size, dep.max() * scale if k == "depth" else 0.0), clockwise=sp.cw, backface_culling=cull,
                      perspective_correct=pc, integer_pixel_centers=ipc)
            want, _, _, a = Ref(s, exact=False).render(0)
            got = np.asarray(d[k])
            ok = ok0 & ((a & 15) == 0)
            if got.shape != want.shape:
                r.bad(k, "%s: shape %s expected %s" % (text, got.shape, want.shape))
                return r
            good = (np.abs(got - want) <= 1e-8 * (1 + np.abs(want))) | ~ok[..., None]
            if not good.all():
                r.bad(k, diff_text(k, got, want, ok=good) + " " + text)
                return r
            r.count("pixels", int(ok.sum()))
        # the visible face of a direct rendering
        fid = np.where(owner >= 0, owner, 0)
        if not close(np.where(ok0, d["face_id"][:, :, 0], 0), np.where(ok0, fid, 0), 1e-8):
            r.bad("visible face", text)
        # direct rendering with constant light
        cov = ok0 & (owner >= 0)
        if not sp.textured:
            sc.set_light(None, 0.75)
            direct = sc.render(cam, backface_culling=cull)
            if not close(np.where(cov[..., None], d["color"] * 0.75, 0), np.where(cov[..., None], direct, 0), 1e-8):
                r.bad("direct rendering", text)
            sc.set_light(None if light is None else np.array(light), amb)
        bary = d["barycentric"]
        for k, v in ch.items():
            comb = np.einsum("hwc,hwcs->hws", bary, v[fid])
            if not close(np.where(cov[..., None], d[k], 0), np.where(cov[..., None], comb, 0), 1e-8):
                r.bad("barycentric", "%s: channel %s is not the combination of the values at the corners" % (text, k))
        r.key(np.round(d["face_id"]).tobytes())
        if i % 8 == j % 8:
            for sub in itertools.product((False, True), repeat=8):
                req = dict(zip(CH, sub))
                want = {k for k in ch if req[k]}
                if not want:
                    continue
                e = (sc if sub[0] else sp.make_scene()).render_deferred(cam, depth_scale=scale, backface_culling=cull, **req)
                r.n += 1
                r.key("subset", sub, case["kind"])
                if set(e) != want:
                    r.bad("subset channels", "%s: asked %s got %s" % (text, sorted(want), sorted(e)))
                    break
                for k in want:
                    if not close(e[k], d[k], 1e-12):
                        r.bad("subset", "%s: channel %s depends on the set of channels %s" % (text, k, sorted(want)))
                        break
                if r.msgs:
                    break
        if r.msgs:
            return r
    return r
