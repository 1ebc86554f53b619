"""Builds the code under test from /repo's current working tree, and the drivers.

Everything goes to /verif/build (git-ignored). Objects are compiled by /repo's own
CMake project (so the source list and flags are the repository's), at -O0 and with
-fsanitize=thread, which is only used as an instrumentation pass: the drivers are
linked with harness/vfsched.cpp in place of libtsan. ccache (content hashed) only
speeds up repeated runs.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
FLAGS = "-O0 -g0 -w -fsanitize=thread"


class ToolError(Exception):
    """the machinery itself failed: neither a pass nor a violation"""


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "2G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["LC_ALL"] = "C.UTF-8"
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_LIBRARY_PATH", "POTHOS_ROOT"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), text=True, **kw)
    if r.returncode != 0:
        raise ToolError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_objects():
    os.makedirs(OBJ, exist_ok=True)
    cmd = ["cmake", "-S", REPO, "-B", OBJ, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
           "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
           "-DCMAKE_CXX_FLAGS=" + FLAGS, "-DENABLE_LIBRARY_DOCS=OFF", "-DPOTHOS_EXTVER=local",
           "-DCMAKE_INSTALL_PREFIX=" + os.path.join(BUILD, "root"), "-DCMAKE_INSTALL_LIBDIR=lib",
           "-DCMAKE_PROJECT_INCLUDE=/opt/vp/cmake/no-simdpp.cmake"]
    cmd += ["-DCMAKE_CXX_COMPILER_LAUNCHER=" + os.path.join(VERIF, "vf", "cxx.sh")]
    run(cmd)
    # content stamps: never trust time stamps to notice an edit
    touch_changed()
    targets = run(["ninja", "-C", OBJ, "-t", "targets", "all"])
    objs = []
    for line in targets.splitlines():
        m = re.match(r"(lib/CMakeFiles/Pothos\.dir/\S+\.o):", line)
        if not m:
            continue
        base = os.path.basename(m.group(1))
        if re.match(r"Test[A-Z]", base) or base.startswith("Tests."):
            continue
        objs.append(m.group(1))
    if len(objs) < 50:
        raise ToolError("cannot find the library's objects in build.ninja")
    run(["ninja", "-C", OBJ] + objs)
    return [os.path.join(OBJ, o) for o in objs]


def touch_changed():
    """ninja compares time stamps; record content hashes of all sources and touch what differs"""
    stamp = os.path.join(BUILD, "stamps.txt")
    old = {}
    if os.path.exists(stamp):
        for l in open(stamp):
            h, p = l.rstrip("\n").split(" ", 1)
            old[p] = h
    new = {}
    changed = False
    for top in ("lib", "include"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                p = os.path.join(d, f)
                new[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
                if p in old and old[p] != new[p]:
                    changed = True
    if changed or set(old) - set(new):
        # drop all objects; ccache keeps this cheap
        d = os.path.join(OBJ, "lib/CMakeFiles/Pothos.dir")
        for r, _, fs in os.walk(d):
            for f in fs:
                if f.endswith(".o"):
                    os.unlink(os.path.join(r, f))
    with open(stamp, "w") as fo:
        for p in sorted(new):
            fo.write(new[p] + " " + p + "\n")


def link_libs():
    txt = open(os.path.join(OBJ, "build.ninja")).read()
    m = re.search(r"build lib/libPothos\.so[^\n]*CXX_SHARED_LIBRARY_LINKER.*?\n\n", txt, re.S)
    if not m:
        raise ToolError("no link rule for libPothos")
    l = re.search(r"LINK_LIBRARIES = (.*)", m.group(0))
    libs = [x for x in l.group(1).split() if x]
    libs = [x if x.startswith("-") or os.path.isabs(x) else os.path.join(OBJ, x) for x in libs]
    return libs


def compile_flags():
    txt = open(os.path.join(OBJ, "build.ninja")).read()
    m = re.search(r"build lib/CMakeFiles/Pothos\.dir/Framework/Topology\.cpp\.o:.*?\n\n", txt, re.S)
    if not m:
        raise ToolError("no compile rule")
    g = lambda k: (re.search(r"^\s+%s = (.*)$" % k, m.group(0), re.M) or [None, ""])[1]
    flags = g("FLAGS").replace("-fvisibility=hidden", "").replace("-fvisibility-inlines-hidden", "")
    inc = g("INCLUDES")
    return (flags + " " + inc).split()


def build_driver(name, extra_defs=()):
    """harness/<name>.cpp + the library's objects -> build/bin/<name>"""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        objs = build_objects()
        H = os.path.join(VERIF, "harness")
        sched = os.path.join(BUILD, "bin", "vfsched.o")
        cc = ["ccache"] if shutil.which("ccache") else []
        run(cc + ["g++", "-O2", "-g0", "-w", "-I", H, "-c", os.path.join(H, "vfsched.cpp"), "-o", sched])
        drv = os.path.join(BUILD, "bin", name + ".o")
        run(cc + ["g++"] + compile_flags() + list(extra_defs) +
            ["-I", H, "-I", os.path.join(REPO, "lib"), "-c", os.path.join(H, name + ".cpp"), "-o", drv])
        exe = os.path.join(BUILD, "bin", name)
        rsp = exe + ".rsp"
        with open(rsp, "w") as f:
            extra = re.findall(r"^// LINK: (\S+)", open(os.path.join(H, name + ".cpp")).read(), re.M)
            f.write("\n".join([drv, sched] + objs + link_libs() + extra + ["-ldl", "-lpthread"]))
        run(["g++", "-o", exe, "@" + rsp])
        return exe
    finally:
        lock.close()


if __name__ == "__main__":
    t = time.time()
    names = sys.argv[1:]
    if names == ["--all"]:
        names = sorted(f[:-4] for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".cpp") and f != "vfsched.cpp")
    for n in names:
        print(build_driver(n), round(time.time() - t, 1))
