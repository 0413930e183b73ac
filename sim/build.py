"""Builds what the checks run, from /repo's current working tree, into
/verif/.build: the repository's C++ code as one extension module (through the
pybind11 stand-in in /verif/shim) and the libc seam simfs.so."""
import fcntl
import glob
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SRC = REPO + "/opensfm/src"
OUT = VERIF + "/.build"
CMB = REPO + "/cmake_build"
PY = "/opt/venv/bin/python"

TUS = [
    "map/python/pybind.cc", "sfm/src/ba_helpers.cc", "bundle/python/pybind.cc",
    "geometry/python/pybind.cc", "sfm/python/pybind.cc", "dense/python/pybind.cc",
    "features/python/pybind.cc", "robust/python/pybind.cc", "geo/python/pybind.cc",
    "features/src/akaze_bind.cc", "features/src/hahog.cc",
    "features/src/matching.cc", "foundation/src/types.cc", VERIF + "/shim/core.cc", VERIF + "/shim/ceres_wrap.cc",
]
LIBS = [
    "bundle/libbundle.a", "robust/librobust.a", "geo/libgeo.a",
    "geometry/libgeometry.a", "sfm/libsfm.a", "dense/libdense.a",
    "third_party/vlfeat/libvl.a", "third_party/akaze/libakaze.a",
    "map/libmap.a", "foundation/libfoundation.a",
]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:400], p.stdout[-6000:]))
    return p.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def flags():
    import numpy
    import sysconfig
    return [
        "-std=c++17", "-fPIC", "-O0", "-fopenmp", "-fvisibility=hidden",
        "-fvisibility-inlines-hidden", "-w", "-DVL_DISABLE_AVX",
        "-DINPLACE_VLFEAT", "-DVL_DISABLE_SSE2", "-DNDEBUG",
        "-I%s/shim" % VERIF, "-I" + SRC, "-I%s/third_party/vlfeat" % SRC,
        "-I%s/third_party/akaze/lib" % SRC, "-I/usr/include/eigen3",
        "-I/usr/include/opencv4", "-I" + sysconfig.get_paths()["include"],
        "-I" + numpy.get_include(),
    ]


def compile_tu(tu, hdr):
    src = tu if tu.startswith("/") else os.path.join(SRC, tu)
    key = digest([src], hdr)
    o = "%s/%s-%s.o" % (OUT, tu.strip("/").replace("/", "_"), key)
    if not os.path.exists(o):
        for old in glob.glob("%s/%s-*.o" % (OUT, tu.strip("/").replace("/", "_"))):
            os.unlink(old)
        tmp = "%s.%d.tmp" % (o, os.getpid())
        run(["g++"] + flags() + ["-c", src, "-o", tmp], cwd=SRC)
        os.rename(tmp, o)
    return o


def build(verbose=False):
    """Returns (extension path, seam path)."""
    os.makedirs(OUT, exist_ok=True)
    with open(OUT + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(["bash", "/opt/vp/build.sh"], cwd=REPO)
        hdrs = []
        for d, _, fs in os.walk(SRC):
            if "/third_party/pybind11" in d or "/third_party/gtest" in d:
                continue
            hdrs += [os.path.join(d, f) for f in fs
                     if f.endswith((".h", ".hpp", ".inl", ".def", ".th", ".tc"))]
        hdrs += glob.glob(VERIF + "/shim/pybind11/*.h")
        hdr = digest(hdrs, " ".join(flags()))
        with ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(compile_tu, t, hdr) for t in TUS]
            objs = [f.result() for f in futs]
        libs = ["%s/%s" % (CMB, x) for x in LIBS]
        key = digest(objs + libs)
        ext = "%s/opensfm_ext-%s.so" % (OUT, key)
        if not os.path.exists(ext):
            for old in glob.glob(OUT + "/opensfm_ext-*.so"):
                os.unlink(old)
            run(["g++", "-shared", "-o", ext + ".tmp"] + objs +
                ["-Wl,--start-group"] + libs + ["-Wl,--end-group"] +
                "-lceres -lglog -lgflags -lopencv_core -lopencv_imgproc "
                "-lopencv_calib3d -lopencv_imgcodecs -fopenmp -llapack "
                "-lcholmod -lspqr -Wl,--wrap=_ZN5ceres5SolveERKNS_6Solver7OptionsEPNS_7ProblemEPNS0_7SummaryE".split())
            os.rename(ext + ".tmp", ext)
        seam_src = VERIF + "/sim/simfs.c"
        seam = "%s/simfs-%s.so" % (OUT, digest([seam_src]))
        if not os.path.exists(seam):
            for old in glob.glob(OUT + "/simfs-*.so"):
                os.unlink(old)
            run(["gcc", "-O1", "-shared", "-fPIC", "-w", seam_src, "-o",
                 seam + ".tmp", "-ldl"])
            os.rename(seam + ".tmp", seam)
        if not os.path.isdir(OUT + "/mpl"):
            # matplotlib's font cache, so that workers need not rebuild it
            tmp = "%s/mpl.%d" % (OUT, os.getpid())
            os.makedirs(tmp)
            run([PY, "-c", "import matplotlib.pyplot"],
                env=dict(os.environ, MPLCONFIGDIR=tmp, MPLBACKEND="Agg"))
            os.rename(tmp, OUT + "/mpl")
        return ext, seam


if __name__ == "__main__":
    print(*build(), sep="\n")
