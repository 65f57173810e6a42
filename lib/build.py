"""Builds a private copy of the package from /repo's working tree (content addressed), plus the reference model."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

FLAGS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize=float-divide-by-zero", "-fno-sanitize-recover=undefined,float-cast-overflow",
             "-fno-sanitize=vptr,function,alignment,null"],
}
FLAGS["count"] = ["-O1", "-include", os.path.join(VERIF, "cpp", "count.h"), "-Wl,-Bsymbolic"] + ["-Wl,--wrap=%s" % f for f in ("malloc", "calloc", "realloc", "free")]
FLAGS["asan"] = [f for f in FLAGS["asan"] if "vptr" not in f] + ["-fno-sanitize=alignment"]


def _sources():
    out = []
    for top in ("deodr", "C++"):
        for d, _, files in os.walk(os.path.join(REPO, top)):
            if os.path.join(REPO, "deodr", "data") in d or "__pycache__" in d:
                continue
            for f in files:
                if f.endswith((".py", ".pyx", ".pxd", ".pxi", ".h", ".hpp", ".c", ".cpp", ".cc")):
                    out.append(os.path.join(d, f))
    return sorted(out)


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def build(variant="plain"):
    """Returns (package root to put on sys.path, path of the reference model)."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        refsrc = os.path.join(VERIF, "cpp", "ref.cpp")
        with open(refsrc, "rb") as f:
            ref = os.path.join(CACHE, "ref-%s.so" % hashlib.sha256(f.read()).hexdigest()[:16])
        procs = []
        if not os.path.exists(ref):
            procs.append((subprocess.Popen(["g++", "-O2", "-shared", "-fPIC", "-o", ref + ".tmp", refsrc],
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), "ref"))
        srcs = _sources()
        root = os.path.join(CACHE, "pkg-%s-%s" % (variant, _hash(srcs, variant + "".join(FLAGS[variant]) + (open(os.path.join(VERIF, "cpp", "count.h")).read() if variant == "count" else ""))))
        if not os.path.exists(os.path.join(root, "ok")):
            for old in sorted(os.listdir(CACHE)):  # keep the cache small
                p = os.path.join(CACHE, old)
                if old.startswith("pkg-%s-" % variant) and time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            shutil.rmtree(root, ignore_errors=True)
            for p in srcs:
                dst = os.path.join(root, os.path.relpath(p, REPO))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(p, dst)
            data = os.path.join(REPO, "deodr", "data")
            if os.path.isdir(data):
                os.symlink(data, os.path.join(root, "deodr", "data"))
            import numpy
            _run([sys.executable, "-m", "cython", "--cplus", "-3", "deodr/differentiable_renderer_cython.pyx"], root)
            ext = sysconfig.get_config_var("EXT_SUFFIX")
            cxx = "g++"
            _run([cxx] + FLAGS[variant] + ["-w", "-fPIC", "-shared", "-I" + numpy.get_include(),
                 "-I" + sysconfig.get_paths()["include"], "-Ideodr",
                 "deodr/differentiable_renderer_cython.cpp", "-o", "deodr/differentiable_renderer_cython" + ext], root)
            os.unlink(os.path.join(root, "deodr", "differentiable_renderer_cython.cpp"))
            open(os.path.join(root, "ok"), "w").close()
        for p, what in procs:
            o, _ = p.communicate()
            if p.returncode:
                raise RuntimeError("build of %s failed\n%s" % (what, o))
            os.rename(ref + ".tmp", ref)
    return root, ref


if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ["plain"]:
        print(build(v), round(time.time() - t, 1))
