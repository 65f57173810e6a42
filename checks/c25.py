"""C25: OBJ reading over every file obtained from base files by one or two legal respellings; writing then reading over exhaustive coordinate and index sets."""
import itertools
import os
import tempfile

import numpy as np

from deodr.obj import read_obj, save_obj
from runner import R

ID = "C25"
LEVEL = "exploration"
RULE = ("base files (orders of vertex and face records, forward references) x every single and every pair of respellings: spelling of any vertex or face record (suffixes /t //n /t/n, relative and mixed indices, tabs, leading/trailing/multiple spaces, "
        "signs and exponents, extra weight or colour fields, continuation at any gap, trailing comment), any other record, comment or blank line inserted anywhere, line endings, missing final newline; "
        "write-then-read of all triples over 14 coordinate values and all index types; distinct = distinct files")
ASSUME = ["triangular faces, at least one vertex and one face", "finite coordinates"]

V = [(0.0, 0.0, 0.0), (1.0, 0.5, -2.0), (0.25, 3.0, 1e-3), (-1.5, 2.0, 40.0), (7.0, -0.125, 2.5)]
BASES = ["vvvf", "vvvvff", "vvvfvf", "fvvv", "vfvvf", "vvvvvfff"]
FACES = {3: [(0, 1, 2), (2, 1, 0), (1, 0, 2)], 4: [(0, 2, 1), (3, 1, 2), (1, 3, 0)], 5: [(4, 0, 2), (3, 1, 4), (2, 3, 0)]}
FMT = ["{} {} {}", "{0}  {1}\t{2}", "{0}/1 {1}/2 {2}/3", "{0}//4 {1}//5 {2}//6", "{0}/1/1 {1}/2/1 {2}/3/1", "{0} {1} {2} ", "{0} {1} {2} # 9 8 7"]
OTHERS = ["vt 0.5 0.25", "vn 0 0 1", "vp 0.5 0.5", "vt 0.5 0.25 0", "# v 9 9 9", "#f 1 1 1", "", "   ", "\t", "g f 1 2 3", "o v", "s off", "usemtl v", "mtllib f.mtl", "l 1 2", "p 1", "  vn 1 0 0", "vn\t1 0 0"]


def vertex_variants(x):
    a, b, c = ("%r" % k for k in x)
    e, g, h = ("%.6e" % k for k in x)
    yield "v %s %s %s" % (a, b, c)
    for t in ("v %s  %s   %s", "v\t%s\t%s\t%s", "  v %s %s %s", "v %s %s %s  ", "\tv %s %s %s", "v %s %s %s 1.0", "v %s %s %s 0.5 0.25 1", "v %s %s %s # comment", "v \\\n%s %s %s", "v %s \\\n %s %s",
              "v %s %s\\\n %s", "v %s \\\n%s \\\n%s", "v   %s %s %s"):
        yield t % (a, b, c)
    yield "v %s %s %s" % (e, g, h)
    yield "v " + " ".join(("+%s" % k if not k.startswith("-") else k) for k in (a, b, c))
    if all(k == int(k) for k in x):
        yield "v %d %d %d" % x


def face_variants(f, count, total):
    """count: number of vertices declared before the face."""
    absolute = [i + 1 for i in f]
    for t in FMT:
        yield "f " + t.format(*absolute)
    for t in ("f\t%d %d %d", " f %d %d %d", "f   %d %d %d", "f \\\n%d %d %d", "f %d \\\n%d %d", "f %d %d\\\n %d"):
        yield t % tuple(absolute)
    if all(i < count for i in f):
        rel = [i - count for i in f]
        for t in (FMT[0], "{0}/-1 {1}/-2 {2}/-3", "{0}//-1 {1}//-1 {2}//-1", "{0}/-1/-1 {1}/-2/-1 {2}/-3/-1"):
            yield "f " + t.format(*rel)
        for k in range(3):
            yield "f %d %d %d" % tuple(rel[j] if j == k else absolute[j] for j in range(3))


def records(base):
    nv = base.count("v")
    out, iv, jf = [], 0, 0
    for ch in base:
        if ch == "v":
            out.append(list(vertex_variants(V[iv])))
            iv += 1
        else:
            out.append(list(face_variants(FACES[nv][jf], iv, nv)))
            jf += 1
    return out, np.array(V[:nv]), np.array([FACES[nv][k] for k in range(jf)])


def edits(base):
    recs, _, _ = records(base)
    e = [("spell", i, k) for i, v in enumerate(recs) for k in range(1, len(v))]
    e += [("insert", i, k) for i in range(len(recs) + 1) for k in range(len(OTHERS))]
    e += [("end", 0, k) for k in (1, 2, 3)]
    return e


def render(base, chosen):
    recs, v, f = records(base)
    spell = [0] * len(recs)
    ins = [[] for _ in range(len(recs) + 1)]
    end = 0
    for kind, i, k in chosen:
        if kind == "spell":
            spell[i] = k
        elif kind == "insert":
            ins[i].append(k)
        else:
            end = k
    lines = []
    for i, rec in enumerate(recs):
        lines += [OTHERS[k] for k in ins[i]] + [rec[spell[i]]]
    lines += [OTHERS[k] for k in ins[-1]]
    text = "\n".join(lines) + ("" if end & 1 else "\n")
    return text.replace("\n", "\r\n") if end & 2 else text, v, f


COORDS = [0.0, -0.0, 1.0, 1 / 3, -2.5e-7, 1e-300, 123456789.123456, -2.5e10, 0.1, np.pi, 5e-324, 1.7e308, 1e22, 100000.5]


def cases(tier):
    for b in BASES:
        for i in range(len(edits(b))):
            yield dict(kind="read", base=b, i=i)
        if tier == "thorough" and len(b) <= 6:
            for i in range(0, len(edits(b))):
                yield dict(kind="triple", base=b, i=i)
    for i in range(len(COORDS)):
        yield dict(kind="write", i=i)
    yield dict(kind="indices")


def scratch():
    d = "/dev/shm" if os.path.isdir("/dev/shm") else None
    return tempfile.TemporaryDirectory(prefix="deodr-obj-", dir=d)


def read_check(r, path, base, chosen):
    text, v, f = render(base, chosen)
    with open(path, "w", newline="") as fh:
        fh.write(text)
    r.n += 1
    r.key(text)
    try:
        gf, gv = read_obj(path)
    except Exception as e:
        r.bad("read raises", "%r for the file\n%s" % (e, text))
        return
    if not np.array_equal(gv, v):
        r.bad("vertices", "read %s expected %s for the file\n%s" % (np.asarray(gv).tolist(), v.tolist(), text))
    elif not np.array_equal(gf, f):
        r.bad("faces", "read %s expected %s for the file\n%s" % (np.asarray(gf).tolist(), f.tolist(), text))


def write_check(r, path, v, f):
    keep = v.copy(), f.copy()
    save_obj(path, v, f)
    gf, gv = read_obj(path)
    r.n += 1
    if not np.array_equal(gv, v):
        r.bad("write vertices", "wrote %s, read back %s" % (v.tolist()[:3], gv.tolist()[:3]))
    if not np.array_equal(gf, f):
        r.bad("write faces", "wrote %s (%s), read back %s" % (f.tolist()[:3], f.dtype, gf.tolist()[:3]))
    if not np.array_equal(v, keep[0]) or not np.array_equal(f, keep[1]):
        r.bad("write mutated", "arguments modified")


def check(case):
    r = R()
    r.n = 0
    with scratch() as d:
        path = os.path.join(d, "m.obj")
        k = case["kind"]
        if k in ("read", "triple"):
            e = edits(case["base"])
            a = e[case["i"]]
            read_check(r, path, case["base"], [a])
            for j in range(case["i"] + 1, len(e)):
                if e[j][:2] == a[:2] and a[0] != "insert":
                    continue
                if k == "read":
                    read_check(r, path, case["base"], [a, e[j]])
                else:
                    for m in range(j + 1, len(e), 7):
                        if len({x[:2] for x in (a, e[j], e[m]) if x[0] != "insert"}) == sum(x[0] != "insert" for x in (a, e[j], e[m])):
                            read_check(r, path, case["base"], [a, e[j], e[m]])
                if len(r.msgs) > 3:
                    return r
        elif k == "write":
            F = np.array([(0, 1, 2)])
            for y, z in itertools.product(COORDS, repeat=2):
                v = np.array([(COORDS[case["i"]], y, z), (y, z, -y), (-z, 1.0, y)])
                write_check(r, path, v, F)
                r.key("write", case["i"], y, z)
                w = v.astype(np.float32)
                if np.isfinite(w).all():
                    write_check(r, path, w, F.astype(np.uint32))
                if r.msgs:
                    return r
        else:
            for n in (3, 127, 128, 255, 256, 257, 300, 32767, 32768, 32769, 65535, 65536, 65537, 70000):
                v = np.arange(3.0 * n).reshape(n, 3) / 7
                for dt in (np.uint8, np.int8, np.uint16, np.int32, np.uint32, np.int64, np.uint64) if n < 1000 else (np.int16, np.uint16, np.uint32, np.int64):
                    if n - 1 <= np.iinfo(dt).max:
                        write_check(r, path, v, np.array([(0, 1, n - 1), (n - 1, n // 2, 0), (n // 2 - 1, n - 2, n // 2)], dtype=dt))
                        r.key("index", n, str(dt))
    return r
