"""C44: copies and pickles taken at every point of a history continue it, and original and copy do not influence each other."""
import contextlib
import copy
import io
import itertools
import pickle

import numpy as np

import c08
import c22
import c24
from runner import R

ID = "C44"
LEVEL = "model_checking"
RULE = ("(1) 3D scenes: all histories of two operations of C22, then a deep copy or a pickle round trip of scene, meshes, cameras and the arrays involved, then every operation on the copy together with one (thorough: every) operation on the original in either order and a final observation of both, compared with scenes built from scratch; "
        "(2) 2D scenes: the same with the operations of C08, gradients included, after one (thorough: two) operations; (3) the NumPy fitters of C24: all words of length 3 (thorough: 5) over {step, reset, observation A, observation B, initial pose}, copied at every point: copy and original must both repeat the uninterrupted run to the last bit")
ASSUME = ["the whole object graph is copied at once (scene with its mesh)", "PyTorch objects are left out: PyTorch refuses to copy tensors that carry a graph"]
CASE_LIMIT = 600
HOW = ("deepcopy", "pickle")


def snapshot(how, o):
    return copy.deepcopy(o) if how == "deepcopy" else pickle.loads(pickle.dumps(o, protocol=pickle.HIGHEST_PROTOCOL))


def cases(tier):
    thorough = tier == "thorough"
    for how in HOW:
        for start in (0, 1):
            for a in c22.OPS:
                if not c22.legal(c22.State(start), a):
                    continue
                for b in c22.OPS if thorough else ("",):
                    yield dict(part="scene3d", how=how, start=start, first=[a] + [b] * thorough, depth=1 - thorough, all=thorough)
        for a in c08.OPS:
            for b in c08.OPS if thorough else ("",):
                yield dict(part="scene2d", how=how, first=[a] + [b] * thorough, depth=0)
        for c in c24.configs():
            if c["fitter"] in ("depth", "rgb", "multi"):
                yield dict(c, part="fitter", how=how, depth=5 if thorough else 3)


def go(r, w, st, op, text):
    """One operation of C22 on a world; False if it cannot happen."""
    if not c22.legal(st, op):
        return False
    try:
        c22.step(r, w, st, op, text)
    except BaseException as e:
        r.bad("exception:" + type(e).__name__, "%s: %r" % (text, e))
        return False
    w.check_given(r, text)
    r.count("transitions")
    return True


def last(st):
    return {"render": "back1", "depth": "dback", None: "render1"}[st.last and st.last[0]]


def scene3d(r, case):
    how = case["how"]
    for rest in itertools.product(c22.OPS, repeat=case["depth"]):
        prefix = tuple(case["first"]) + rest
        for cut in ([1] if rest == (c22.OPS[0],) else []) + [len(prefix)]:
            st = c22.State(case["start"])
            w = c22.World(st)
            if not all(go(r, w, st, op, "history %s" % (prefix,)) for op in prefix[:cut]):
                continue
            enabled = [op for op in c22.OPS if c22.legal(st, op)]
            n = sum(map(c22.OPS.index, prefix))
            for i, (a, b) in enumerate(itertools.product(enabled, repeat=2)):
                if not case["all"] and (i + i // len(enabled) + n) % len(enabled):
                    continue  # one partner for each operation
                for order in (0, 1) if case["all"] else ((i + n) // 2 % 2,):
                    try:
                        o = copy.deepcopy(w)
                        c = snapshot(how, o)
                    except BaseException as e:
                        r.bad("%s fails" % how, "history %s: %s of the scene raises %r" % (prefix[:cut], how, e))
                        return
                    so, sc = st.copy(), st.copy()
                    text = "history %s, then %s, then %s on the copy and %s on the original (order %d)" % (prefix[:cut], how, a, b, order)
                    todo = [(c, sc, a), (o, so, b)]
                    for x, s, op in todo[::-1] if order else todo:
                        go(r, x, s, op, text + " at " + op)
                    for x, s in ((c, sc), (o, so)):
                        go(r, x, s, last(s), text + ", at the last observation of the " + ("copy" if x is c else "original"))
                    r.n += 1
                    r.key(prefix[:cut], a, b, order)
                    if r.msgs:
                        return


def scene2d(r, case):
    how = case["how"]

    def do(w, op, text):
        if not w.enabled(op):
            return False
        try:
            w.apply(op, r)
            w.verify(op, r)
        except BaseException as e:
            r.bad("exception:" + type(e).__name__, "%s: %r" % (text, e))
        r.count("transitions")
        return not r.msgs

    for rest in itertools.product(c08.OPS, repeat=case["depth"]):
        prefix = tuple(case["first"]) + rest
        for a, b in itertools.product(c08.OPS, repeat=2):
            w = c08.World()
            ok = True
            for op in prefix:
                ok = ok and do(w, op, "history %s" % (prefix,))
            if not ok:
                break
            if not (w.enabled(a) and w.enabled(b)):
                continue
            text = "history %s, then %s, then %s on the copy and %s on the original" % (prefix, how, a, b)
            try:
                c = snapshot(how, w)
            except BaseException as e:
                r.bad("%s fails" % how, "history %s: %s of the scene raises %r" % (prefix, how, e))
                return
            do(c, a, text)
            do(w, b, text)
            for x in (c, w):
                do(x, "render1", text)
                do(x, "back1", text)
            r.n += 1
            r.key(prefix, a, b)
            if r.msgs:
                r.bad("detail", text)
                return


def act(su, f, op):
    """-> observed arrays."""
    if op == "step":
        e, im, di = f.step()
        out = [np.array(e)] + [np.array(x) for x in (im if isinstance(im, list) else [im]) + (di if isinstance(di, list) else [di])]
    else:
        if op == "reset":
            f.reset()
        elif op == "init":
            f.set_mesh_transform_init(*su.pose[1])
        else:
            su.observe(f, op)
        out = []
    return out + [np.array(x) for x in c24.params(f, su.c).values()]


def fitter(r, case):
    c = {k: case[k] for k in ("fitter", "conf", "frames", "lights", "color")}
    how = case["how"]
    su = c24.Setup(c)

    def run(f, word):
        with contextlib.redirect_stdout(io.StringIO()):
            return [act(su, f, op) for op in word]

    def same(x, y):
        return len(x) == len(y) and all(len(a) == len(b) and all(np.array_equal(u, v, equal_nan=True) for u, v in zip(a, b)) for a, b in zip(x, y))

    def make():
        with contextlib.redirect_stdout(io.StringIO()):
            return su.make()

    ops = ("step", "reset", "A", "B", "init")
    for word in itertools.product(ops, repeat=case["depth"]):
        if word[-1] != "step" or any(a == b != "step" for a, b in zip(word, word[1:])) or any(p in (("A", "B"), ("B", "A"), ("init", "A"), ("init", "B")) for p in zip(word, word[1:])):
            continue
        want = run(make(), word)
        if not same(run(make(), word), want):
            continue  # not reproducible: C24
        for cut in range(len(word)):
            f = make()
            run(f, word[:cut])
            text = "%s: %s after %s of %s" % (c, how, list(word[:cut]), list(word))
            try:
                g = snapshot(how, f)
            except BaseException as e:
                r.bad("%s fails" % how, "%s raises %r" % (text, e))
                return
            r.n += 1
            r.count("transitions", 2 * len(word))
            r.key(word[:cut])
            for name, x in (("copy", g), ("original", f)):
                try:
                    got = run(x, word[cut:])
                except BaseException as e:
                    r.bad("exception:" + type(e).__name__, "%s: continuing the %s raises %r" % (text, name, e))
                    return
                if not same(got, want[cut:]):
                    r.bad("fitter " + name, "%s: the %s does not continue the run" % (text, name))
                    return


def check(case):
    r = R()
    r.n = 0
    dict(scene3d=scene3d, scene2d=scene2d, fitter=fitter)[case["part"]](r, case)
    r.count("traces", r.n)
    return r
