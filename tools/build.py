"""Builds the harness of a check from /repo's working tree, out of tree, with ninja.

The sources of the library are found by globbing, as the project's own build does, so that added or
removed files are picked up. Object files are kept per variant in /verif/build and rebuilt when the
source, any header it includes, or the command changes.
"""
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VRS_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

COMMON = "-std=c++17 -w -DFMT_SHARED -DOSS_BUILD_MODE -DNDEBUG -DVRS_VERIFICATION_CHUNK_UNIT=1024 -I%s -I%s/vrs/oss -I%s/lib" % (REPO, REPO, VERIF)
VARIANTS = {
    "asan": "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -fno-optimize-sibling-calls",
    "tsan": "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer",
    "plain": "-O1 -g1",
}
ATOMICS = []
for bits in (8, 16, 32, 64):
    for op in ("load", "store", "exchange", "fetch_add", "fetch_sub", "compare_exchange_strong", "compare_exchange_weak"):
        ATOMICS.append("-Wl,--wrap=__tsan_atomic%d_%s" % (bits, op))

FS_WRAPPED = ("fopen", "fopen64", "fileno", "ftruncate", "ftruncate64", "rename", "remove", "unlink")

CORE = ["vrs/*.cpp", "vrs/helpers/*.cpp", "vrs/os/*.cpp", "vrs/utils/xxhash/*.cpp"]
EXTRA = ["vrs/oss/logging/Checks.cpp"]
UTILS = ["vrs/utils/*.cpp", "vrs/utils/converters/*.cpp", "vrs/utils/cli/*.cpp"]
UTILS_FLAGS = "-DOPUS_IS_AVAILABLE -isystem /usr/include/opus"
LINK_CORE = "-lfmt -lxxhash -llz4 -lzstd -lpthread -lrt -ldl"
LINK_UTILS = "-lturbojpeg -ljpeg -lpng -lopus"


def expand(patterns):
    out = []
    for p in patterns:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            # (the Ocean library is not available: the few functions that need it are left out)
            if "_fb." not in os.path.basename(f) and os.path.basename(f) not in ("PixelFrameOcean.cpp", "PixelFrameOptions.cpp"):
                out.append(os.path.relpath(f, REPO))
    return out


def obj(variant, src):
    return os.path.join(BUILD, variant, src.replace("/", "_") + ".o")


def write_ninja(checks):
    """checks: dict name -> dict(src=[...], variant, utils=bool, only=[patterns] or None, sched=bool, fs=bool)"""
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, "build.ninja")
    L = ["ninja_required_version = 1.8", "builddir = %s" % BUILD]
    L += ["rule cxx", "  command = clang++ $flags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CXX $out"]
    L += ["rule ar", "  command = rm -f $out && ar qcs $out $in", "  description = AR $out"]
    L += ["rule link", "  command = clang++ $flags $in -o $out $libs", "  description = LINK $out"]
    # the uninstrumented runtime: one object, its inline library functions made private to it
    L += ["rule isolate",
          "  command = ld -r --force-group-allocation -o $out.tmp.o $in && nm $out.tmp.o | awk '($$2==\"W\"||$$2==\"V\"||$$2==\"u\") && $$3 ~ /^_Z(NK?St|St|NK?9__gnu|NS)/ {print $$3}' > $out.syms && objcopy --localize-symbols=$out.syms $out.tmp.o $out && rm -f $out.tmp.o",
          "  description = ISOLATE $out"]
    for v in sorted({c["variant"] for c in checks.values()}):
        flags = COMMON + " " + VARIANTS[v]
        core = expand(CORE + EXTRA)
        utils = expand(UTILS)
        cores = []
        for s in core:
            f = flags
            # one optimised instantiation-heavy file would take longer than everything else together
            if s.endswith("DataLayout.cpp"):
                f = f.replace("-O1", "-O0").replace("-g1", "-g0")
            L.append("build %s: cxx %s\n  flags = %s" % (obj(v, s), os.path.join(REPO, s), f))
            cores.append(obj(v, s))
        L.append("build %s: cxx %s\n  flags = %s" % (obj(v, "mclog"), os.path.join(VERIF, "lib/mclog.cpp"), flags))
        cores.append(obj(v, "mclog"))
        L.append("build %s/libcore_%s.a: ar %s" % (BUILD, v, " ".join(cores)))
        us = []
        for s in utils:
            L.append("build %s: cxx %s\n  flags = %s %s" % (obj(v, s), os.path.join(REPO, s), flags, UTILS_FLAGS))
            us.append(obj(v, s))
        L.append("build %s/libutils_%s.a: ar %s" % (BUILD, v, " ".join(us)))
        rt = COMMON + " -O2 -g1 -fno-sanitize=all" + (" -DMC_TSAN" if v == "tsan" else "")
        for s in ("mc", "sched", "fsx", "vclock"):
            src = os.path.join(VERIF, "lib", s + ".cpp")
            if os.path.exists(src):
                L.append("build %s: cxx %s\n  flags = %s" % (obj(v, "rt_" + s), src, rt))
        L.append("build %s/mcrt_%s.o: isolate %s" % (BUILD, v, obj(v, "rt_mc")))
        L.append("build %s/mcrt_sched_%s.o: isolate %s %s" % (BUILD, v, obj(v, "rt_mc"), obj(v, "rt_sched")))
    for name, c in sorted(checks.items()):
        v = c["variant"]
        flags = COMMON + " " + VARIANTS[v] + " " + c.get("flags", "")
        objs = []
        for s in c["src"]:
            o = obj(v, "check_" + s)
            L.append("build %s: cxx %s\n  flags = %s" % (o, os.path.join(VERIF, "checks", s), flags))
            objs.append(o)
        for s in c.get("repo_src", []):
            objs.append(obj(v, s))
        objs.append("%s/mcrt_%s%s.o" % (BUILD, "sched_" if c.get("sched") else "", v))
        if c.get("fs"):
            objs.append(obj(v, "rt_fsx"))
        if c.get("vclock"):
            objs.append(obj(v, "rt_vclock"))
        libs = []
        if c.get("utils"):
            libs.append("%s/libutils_%s.a" % (BUILD, v))
        if c.get("core", True):
            libs.append("%s/libcore_%s.a" % (BUILD, v))
        lf = VARIANTS[v] + " -rdynamic"
        if c.get("utils"):
            lf += " -Wl,--unresolved-symbols=ignore-all"
        if c.get("fs"):
            lf += " " + " ".join("-Wl,--wrap=" + f for f in FS_WRAPPED)
        lf += "".join(" -Wl,--wrap=" + f for f in c.get("wrap", ()))
        if c.get("sched") and v == "tsan":
            lf += " " + " ".join(ATOMICS)
        L.append("build %s/bin/%s: link %s %s\n  flags = %s\n  libs = %s %s" % (
            BUILD, name, " ".join(objs), " ".join(libs), lf, LINK_UTILS if c.get("utils") else "", LINK_CORE))
    text = "\n".join(L) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    return path


def build(checks, names):
    path = write_ninja(checks)
    r = subprocess.run(["ninja", "-f", path, "-k", "0"] + [os.path.join(BUILD, "bin", n) for n in names],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=BUILD)
    return r.returncode, r.stdout


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    from registry import HARNESSES
    names = sys.argv[1:] or sorted(HARNESSES)
    rc, out = build(HARNESSES, names)
    sys.stdout.write(out if rc else out[-400:])
    sys.exit(rc)
