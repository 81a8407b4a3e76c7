"""Builds the conformance driver from /repo's current working tree.

Every object is keyed by a hash over all of its possible inputs (the source
file, every header below /repo/include and /repo/lib, the driver headers and
the flags), so an object is reused only when nothing it could depend on has
changed. The cache is below /verif/build and is never committed.
"""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import sys
import threading

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/g++"
FLAGS = ["-std=c++17", "-O0", "-g1", "-fsanitize=address",
         "-fno-omit-frame-pointer", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-w",
         "-DFM_VERSION=0"]
INC = ["-I" + REPO + "/include", "-I" + REPO + "/lib/Feature",
       "-isystem", "/usr/lib/llvm-14/include", "-isystem", "/usr/include/libxml2"]
LIBS = ["/usr/lib/llvm-14/lib/libLLVM-14.so", "-lxml2", "-lz3", "-lstdc++fs"]
# small replacements of submodules which are not part of this checkout
STANDIN = ["-isystem", VERIF + "/driver/standin"]
# sources that need submodules which are not part of this checkout
SKIP = {"SampleSetParser.cpp", "SamplingMethods.cpp"}


def env():
    e = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "LIBRARY_PATH"):
        e.pop(k, None)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


def walk(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def lib_sources():
    out = []
    for sub in ("Feature", "Configuration", "Solver", "Sampling"):
        for f in walk(os.path.join(REPO, "lib", sub), (".cpp",)):
            if os.path.basename(f) not in SKIP:
                out.append(f)
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.digest()


def compile_all(srcs, flags, hdr, tag):
    os.makedirs(BUILD, exist_ok=True)
    jobs = []
    objs = []
    for s in srcs:
        h = hashlib.sha256()
        h.update(" ".join(flags).encode())
        h.update(hdr)
        h.update(s.encode())
        h.update(open(s, "rb").read())
        o = os.path.join(BUILD, "%s-%s-%s.o" % (tag, os.path.basename(s).replace(".cpp", ""), h.hexdigest()[:16]))
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    # longest first
    jobs.sort(key=lambda j: (0 if "Parser" in j[0] or "xml" in j[0] else 1, -os.path.getsize(j[0])))

    def one(j):
        s, o = j
        t = o + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", s, "-o", t], env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.replace(t, o)
        return s, r.returncode, r.stdout

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for s, rc, out in ex.map(one, jobs):
            if rc:
                sys.stderr.write("compile failed: %s\n%s\n" % (s, out))
                raise SystemExit(2)
    return objs


LOCK = threading.Lock()


def build_driver(viewer=False, generator=False):
    """the driver; or one of the tools, as a program of its own"""
    with LOCK:
        return build_locked("viewer" if viewer else "generator" if generator else "driver")


PYINC = ["-fvisibility=hidden", "-isystem", "/usr/include/python3.12"]


def build_python():
    """the Python module, and the command that runs a script with it"""
    with LOCK:
        mod = build_locked("python")
    asan = ":".join(subprocess.run([CXX, "-print-file-name=" + f], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
                    for f in ("libasan.so", "libstdc++.so.6"))
    return ["/usr/bin/env", "LD_PRELOAD=" + asan, "VDRV_PYMOD=" + mod, "PYTHONDONTWRITEBYTECODE=1", "PYTHONMALLOC=malloc",
            "/usr/bin/python3", "-S", os.path.join(VERIF, "driver/py/pydrv.py")]


def build_locked(what):
    hdr = digest(walk(REPO + "/include", (".h", ".hpp", ".inc", ".def")) +
                 walk(REPO + "/lib", (".h", ".hpp", ".inc", ".def")) +
                 walk(VERIF + "/driver", (".h", ".hpp")))
    srcs = lib_sources()
    own = []
    if what == "generator":
        own = walk(REPO + "/tools/config-generator", (".cpp",)) + [REPO + "/lib/Sampling/SampleSetParser.cpp"]
    if what == "viewer":
        srcs += walk(REPO + "/tools/fm-viewer", (".cpp",))
    elif what == "driver":
        srcs += [f for f in walk(VERIF + "/driver", (".cpp",)) if "/py/" not in f and "/standin/" not in f]
    py = REPO + "/bindings/python/vara-feature"
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        fo = ex.submit(compile_all, srcs, FLAGS + INC, hdr, "d")
        more = compile_all(walk(py, (".cpp",)), FLAGS + PYINC + INC, hdr + digest(walk(py, (".h",))), "p") \
            if what == "python" else compile_all(own, FLAGS + INC + STANDIN, hdr, "g")
        objs = fo.result() + more
    h = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, {"viewer": "vfmv-", "generator": "vgen-", "driver": "vdrv-", "python": "vpy-"}[what] + h
                       + (".so" if what == "python" else ""))
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX, "-fsanitize=address"] + (["-shared"] if what == "python" else []) + objs + ["-o", t] + LIBS,
                           env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write("link failed:\n%s\n" % r.stdout)
            raise SystemExit(2)
        os.replace(t, exe)
    return exe


if __name__ == "__main__":
    print(build_driver())
