#!/usr/bin/env python3
"""Build libpluto (from /repo's working tree) and the harness binaries.

build(variant, harness_sources) -> path of the binary. Everything is cached
under /verif/build in directories named by a hash of all inputs."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("PLUTO_REPO", "/repo")
OUT = os.path.join(V, "build")
BASE = ["-g", "-fPIC", "-w", "-DGLPK", "-DLIB_PLUTO",
        "-DSCOPLIB_INT_T_IS_LONGLONG", "-DCLOOG_INT_GMP", "-DPLUTO_VERIF"]
VARIANTS = {
    # name: (flags, use polylib set operations instead of the library's stubs)
    "plain": (["-O1"], False),
    "poly": (["-O1"], True),
    "asan": (["-O1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-fsanitize=address",
              "-fsanitize-address-use-after-scope"], False),
    "asanpoly": (["-O1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-fsanitize=address"], True),
    # memory accesses and function entries call back into harness/ctl.cpp
    "ctl": (["-O1", "-fsanitize=thread"], False),
}
LIBS = ["-lisl", "-lgmp", "-lglpk", "-lgomp", "-lm", "-lpthread"]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def repo_inputs():
    fs = []
    for d in ("lib", "include/pluto"):
        for pat in ("*.c", "*.cpp", "*.h", "*.am", "*.hpp"):
            fs += glob.glob(os.path.join(R, d, pat))
    fs += glob.glob(os.path.join(R, "tool", "constraints_polylib.*"))
    fs.append(os.path.join(R, "configure.ac"))
    return [f for f in fs if os.path.exists(f)]


def finish(tmp, final):
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)


def prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(OUT, prefix + "*")), key=os.path.getmtime)
    for d in ds[:-6]:
        if d != keep and ".tmp" not in d:
            shutil.rmtree(d, ignore_errors=True)


def build_lib(variant):
    flags, poly = VARIANTS[variant]
    extra = ("v3", variant, flags, BASE)
    helpers = [os.path.join(V, "tools", f) for f in
               ("without_piplib.py", "sources.py", "absent_isl.h")]
    standins = os.path.join(V, "harness", "standins.c")
    dg = digest(repo_inputs() + helpers + [standins], extra)
    final = os.path.join(OUT, "lib-%s-%s" % (variant, dg))
    if os.path.isdir(final):
        os.utime(final)
        return final
    tmp = final + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    gen = os.path.join(tmp, "gen")
    os.makedirs(gen)
    ver = subprocess.run(["sed", "-n",
        r's/^AC_INIT(\[pluto\],\[\([^]]*\)\].*/#define PLUTO_VERSION "\1"/p',
        os.path.join(R, "configure.ac")], capture_output=True, text=True).stdout
    open(os.path.join(gen, "version.h"), "w").write(ver or '#define PLUTO_VERSION "x"\n')
    run(["python3", helpers[0], os.path.join(R, "lib/constraints.c"),
         os.path.join(gen, "constraints.c")])
    srcs = subprocess.run(["python3", helpers[1], os.path.join(R, "lib/Makefile.am")],
                          capture_output=True, text=True, check=True).stdout.split()
    inc = ["-I" + os.path.join(R, "include"), "-I" + os.path.join(R, "lib"),
           "-I" + gen, "-include", helpers[2]]
    jobs = []
    for s in srcs:
        if poly and s == "libpluto_dummy.c":
            continue
        src = os.path.join(gen, s) if s == "constraints.c" else os.path.join(R, "lib", s)
        jobs.append((src, s))
    if poly:
        jobs.append((os.path.join(R, "tool/constraints_polylib.c"), "constraints_polylib.c"))
    jobs.append((standins, "standins.c"))
    def cc(job):
        src, name = job
        cxx = name.endswith(".cpp")
        run((["g++", "-std=c++17"] if cxx else ["gcc"]) + BASE + flags + inc +
            ["-I" + os.path.join(R, "tool"), "-c", src, "-o", os.path.join(tmp, name + ".o")])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(cc, jobs))
    run(["ar", "rcs", os.path.join(tmp, "libpluto.a")] +
        [os.path.join(tmp, n + ".o") for _, n in jobs])
    finish(tmp, final)
    prune("lib-%s-" % variant, final)
    return final


def build(variant, name, sources, extra_link=()):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock-%s-%s" % (variant, name)), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(os.path.join(OUT, ".lock-lib-%s" % variant), "w") as lk2:
            fcntl.flock(lk2, fcntl.LOCK_EX)
            lib = build_lib(variant)
        flags, poly = VARIANTS[variant]
        if variant == "ctl":
            flags = []
        hdrs = glob.glob(os.path.join(V, "harness", "*.h"))
        srcs = [os.path.join(V, "harness", s) for s in sources]
        dg = digest(hdrs + srcs, (os.path.basename(lib), flags, extra_link))
        final = os.path.join(OUT, "bin-%s-%s-%s" % (variant, name, dg))
        binp = os.path.join(final, name)
        if os.path.isdir(final):
            os.utime(final)
            return binp
        tmp = final + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        def cc(s):
            run(["g++", "-std=c++17"] + BASE + flags +
                ["-O2"] * (variant in ("plain", "poly", "ctl")) +
                ["-I" + os.path.join(R, "include"), "-I" + os.path.join(R, "lib"),
                 "-include", os.path.join(V, "tools/absent_isl.h"),
                 "-c", s, "-o", os.path.join(tmp, os.path.basename(s) + ".o")])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(cc, srcs))
        run(["g++"] + flags + ["-o", os.path.join(tmp, name)] +
            [os.path.join(tmp, os.path.basename(s) + ".o") for s in srcs] +
            [os.path.join(lib, "libpluto.a")] + LIBS +
            (["-lpolylib64"] if poly else []) + list(extra_link))
        finish(tmp, final)
        prune("bin-%s-%s-" % (variant, name), final)
        return binp
