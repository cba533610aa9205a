"""Builds the model checking executables from the working tree of /repo."""
import hashlib
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XMC_REPO", "/repo")
BUILD = os.environ.get("XMC_BUILD", os.path.join(VERIF, "build"))

CONFIG = {
    "BUILD_XDISPATCH2_BACKEND_NAIVE", "XDISPATCH2_HAVE_PRCTL", "XDISPATCH2_HAVE_SETPRIORITY",
    "XDISPATCH2_HAVE_SYSCONF", "XDISPATCH2_HAVE_SYSCONF_SC_NPROCESSORS_ONLN",
    "XDISPATCH2_HAVE_SOCKETPAIR", "XDISPATCH2_HAVE_DLSYM", "XDISPATCH2_HAVE_IMMINTRIN_H",
    "XDISPATCH2_BUILD_STATIC",
}

LIBFLAGS = ["-std=c++14", "-O1", "-g", "-fno-inline", "-fno-lifetime-dse", "-fsanitize=thread", "--param=tsan-distinguish-volatile=0",
            "-fno-stack-protector", "-fno-pie", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE",
            "-DXDISPATCH_MAKEDLL", "-Wno-tsan", "-w"]
RTFLAGS = ["-std=c++17", "-O2", "-g", "-fno-stack-protector", "-fno-exceptions", "-fno-pie", "-U_FORTIFY_SOURCE", "-w"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".in", ".inc")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(read(p))
    return h.hexdigest()


def gen_config(outdir, qt5=False):
    src = read(os.path.join(REPO, "config.h.in")).decode()
    on = set(CONFIG)
    if qt5:
        on.add("BUILD_XDISPATCH2_BACKEND_QT5")

    def sub(m):
        name, rest = m.group(1), m.group(2)
        return "#define %s%s" % (name, rest) if name in on else "/* #undef %s */" % name
    txt = re.sub(r"#cmakedefine (\w+)(.*)", sub, src)
    d = os.path.join(outdir, "include", "xdispatch")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.h")
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(txt)
        os.replace(tmp, p)
    return os.path.join(outdir, "include")


def compile_one(src, flags, key, log):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    obj = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(src).replace(".cpp", ""), sha(key, " ".join(flags), src, read(src))))
    if not os.path.exists(obj):
        tmp = obj + ".%d" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("cannot compile %s:\n%s" % (src, r.stdout[-4000:]))
        os.replace(tmp, obj)
    return obj


def build(unit, qt5=False):
    """unit: name of a file in harness/ (without .cpp); returns the executable"""
    inc = gen_config(os.path.join(BUILD, "cfg-qt5" if qt5 else "cfg"), qt5)
    hdrs = [os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "xmc"), os.path.join(VERIF, "harness")]
    if qt5:
        hdrs.append(os.path.join(VERIF, "qtstub"))
    th = tree_hash(hdrs) + sha(read(os.path.join(inc, "xdispatch", "config.h")))
    srcs = sorted(os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp"))
    nd = os.path.join(REPO, "src", "naive")
    srcs += sorted(os.path.join(nd, f) for f in os.listdir(nd) if f.endswith(".cpp"))
    incs = ["-I" + inc, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + nd]
    if qt5:
        qd = os.path.join(REPO, "src", "qt5")
        srcs += sorted(os.path.join(qd, f) for f in os.listdir(qd) if f.endswith(".cpp") and f.startswith("qt5_"))
        sd = os.path.join(VERIF, "qtstub")
        srcs += sorted(os.path.join(sd, f) for f in os.listdir(sd) if f.endswith(".cpp"))
        incs = ["-I" + sd, "-I" + qd] + incs
    jobs = []
    for s in srcs:
        jobs.append((s, LIBFLAGS + incs + ["-include", os.path.join(VERIF, "xmc", "fdset.h")], th))
    jobs.append((os.path.join(VERIF, "harness", unit + ".cpp"), LIBFLAGS + incs + ["-include", "stdexcept", "-I" + os.path.join(VERIF, "xmc")], th))
    rth = sha(read(os.path.join(VERIF, "xmc", "xmc.h")), read(os.path.join(VERIF, "xmc", "rt.h")))
    for f in ("rt.cpp", "explorer.cpp"):
        jobs.append((os.path.join(VERIF, "xmc", f), RTFLAGS, rth))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], j[2], None), jobs))
    key = sha(*objs)
    exe = os.path.join(BUILD, "bin", "%s-%s" % (unit, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        r = subprocess.run(["g++", "-no-pie", "-static-libstdc++", "-static-libgcc", "-o", tmp] + objs + ["-lpthread", "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("cannot link %s:\n%s" % (unit, r.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    for u in sys.argv[1:]:
        print(build(u))
