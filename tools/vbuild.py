"""Builds harness binaries and the Python / R extension modules from /repo's current working tree.

Outputs live under /verif/build (git-ignored), keyed by a hash of every source that goes in,
so a changed tree is always rebuilt and an unchanged one is reused."""
import concurrent.futures as cf, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
R_ONLY = {"cpp11", "forest", "kernel", "R_data", "R_random_effects", "sampler", "serialization"}
BASE = ["-std=c++17", "-w", "-fPIC", "-I" + REPO + "/include", "-I" + VERIF + "/shim", "-isystem", "/usr/include/eigen3"]
VARIANTS = {
    "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "opt": ["-O2"],
}
SITE = "/opt/vp/venv/lib/python3.12/site-packages"


class BuildError(Exception):
    pass


def _files():
    return sorted(f for pat in ("include/**/*.h", "include/**/*.hpp", "src/*.cpp", "src/*.h") for f in glob.glob(os.path.join(REPO, pat), recursive=True))


def _hash(extra, harness=()):
    h = hashlib.sha256()
    for f in _files() + list(harness):
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd[-4:]) + "\n" + "\n".join(l[:300] for l in p.stdout.splitlines() if "error" in l or "undefined" in l)[:3000])


def core():
    return [f for f in sorted(glob.glob(REPO + "/src/*.cpp")) if os.path.basename(f)[:-4] not in R_ONLY | {"py_stochtree"}]


def _link(kind, sources, cflags, link, out_name, harness=()):
    key = _hash([kind, cflags, link, [os.path.basename(s) for s in sources]], harness)
    d = os.path.join(BUILD, kind + "-" + key)
    out = os.path.join(d, out_name)
    if os.path.exists(out):
        os.utime(d)
        return out
    os.makedirs(d, exist_ok=True)
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    objs = [os.path.join(tmp, "%02d_%s.o" % (i, os.path.basename(s))) for i, s in enumerate(sources)]
    order = sorted(range(len(sources)), key=lambda i: -os.path.getsize(sources[i]))
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda i: _run(["g++"] + cflags + ["-c", sources[i], "-o", objs[i]]), order))
        _run(["g++"] + objs + ["-o", os.path.join(tmp, out_name)] + link)
        os.replace(os.path.join(tmp, out_name), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    _prune()
    return out


def _prune(keep=14):
    ds = sorted((d for d in glob.glob(BUILD + "/*-*") if os.path.isdir(d) and ".tmp" not in d), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def harness(name, variant):
    src = os.path.join(VERIF, "harness", name + ".cpp")
    fl = VARIANTS[variant]
    hs = sorted(glob.glob(VERIF + "/harness/*.h")) + [src] + glob.glob(VERIF + "/shim/*.h")
    return _link(name + "_" + variant, core() + [src], BASE + fl, [f for f in fl if f.startswith("-fsan")] + ["-lpthread"], name, hs)


def pyext():
    fl = BASE + ["-O2", "-fvisibility=hidden", "-DVERSION_INFO=0.0.1", "-isystem", "/usr/include/python3.12", "-isystem", SITE + "/pybind11/include"]
    return _link("pyext", core() + [REPO + "/src/py_stochtree.cpp"], fl, ["-shared"], "stochtree_cpp.so")


def rext():
    fl = BASE + ["-O2", "-DSTOCHTREE_R_BUILD", "-I" + REPO + "/src", "-isystem", "/usr/share/R/include", "-isystem", "/usr/lib/R/site-library/cpp11/include"]
    return _link("rext", core() + [REPO + "/src/" + n + ".cpp" for n in sorted(R_ONLY)], fl, ["-shared", "-L/usr/lib/R/lib", "-lR"], "stochtree.so")


if __name__ == "__main__":
    for a in sys.argv[1:]:
        print(pyext() if a == "pyext" else rext() if a == "rext" else harness(*a.split(":")))
