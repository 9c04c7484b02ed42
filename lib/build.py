"""Builds what the checks need, from /repo's current working tree, under /verif/build."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
# other flags give other roundings: the checks have to stay quiet
FLAGS = os.environ.get("VERIF_CXXFLAGS", "-march=x86-64-v2 -O1")
PY = "/opt/phd-venv/bin/python"
TLAJARS = ("/opt/veriftools/tla/tla2tools.jar:"
           "/opt/veriftools/tla/CommunityModules-deps.jar")

# compile-time variants of the solver: edits of src/options.h
VARIANTS = {
    "default": {},
    "full": {"THERMAL": "true", "MULTI": "true"},
    "n3": {"N": "3"},
    "n4": {"N": "4"},
    "destress": {"DESTRESS": "true"},
    "corners": {"NO_CORNERS": "false"},
    "prim": {"PRIM_RECONSTRUCT": "true"},
    "thermal": {"THERMAL": "true"},
    "stick": {"RIEMANN_STICK": "true"},
    "multi": {"MULTI": "true"},
    "rotate": {"ROTATE_DISTORTION": "true", "LSET": "1"},
    "lset0": {"LSET": "0"},
    "norelax": {"RIEMANN_RELAXATION": "false"},
}


class BuildError(Exception):
    pass


def _tree_hash(root, variant):
    h = hashlib.sha256()
    h.update(repr((variant, VARIANTS[variant])).encode())
    for sub in ("CMakeLists.txt", "src", "bindings", "include/skfmm"):
        p = os.path.join(root, sub)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, dirs, fs in os.walk(p):
                dirs.sort()
                files += [os.path.join(d, f) for f in sorted(fs)
                          if f.endswith((".cpp", ".h", ".hpp", ".txt", ".c"))]
        for f in files:
            h.update(os.path.relpath(f, root).encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def gprpy(variant="default"):
    """Directory that holds GPRpy.so built from the current tree."""
    src = os.path.join(REPO, "code", "cpp")
    key = _tree_hash(src, variant)
    out = os.path.join(BUILD, "lib", variant)
    stamp = os.path.join(out, "KEY")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BUILD, "lib", variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp) and open(stamp).read() == key \
                and os.path.exists(os.path.join(out, "GPRpy.so")):
            return out
        if os.path.exists(stamp):
            os.remove(stamp)
        b = os.path.join(BUILD, "obj", variant)
        # a copy of the sources (with other options): what is rebuilt depends on contents, not dates
        csrc = os.path.join(BUILD, "src", variant)
        _mirror(src, csrc, VARIANTS[variant])
        files = "\n".join(sorted(os.path.join(d, f) for d, _, fs in os.walk(csrc) for f in fs))
        listing = os.path.join(BUILD, "src", variant + ".list")
        if not os.path.exists(listing) or open(listing).read() != files:
            if os.path.exists(f"{b}/build.ninja"):
                os.remove(f"{b}/build.ninja")
            with open(listing, "w") as fh:
                fh.write(files)
        os.makedirs(b, exist_ok=True)
        log = os.path.join(b, "build.log")
        with open(log, "w") as fh:
            def run(cmd):
                if subprocess.run(cmd, stdout=fh, stderr=subprocess.STDOUT).returncode:
                    raise BuildError(f"build of {variant} failed, see {log}")
            run([PY, f"{VERIF}/support/overlay.py",
                 f"{csrc}/include/pybind11-master/include/pybind11",
                 f"{b}/overlay/pybind11"])
            if not os.path.exists(f"{b}/build.ninja"):
                run(["cmake", "-S", csrc, "-B", b, "-G", "Ninja",
                     "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                     "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                     f"-DCMAKE_CXX_FLAGS_RELWITHDEBINFO={FLAGS}",
                     "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                     f"-DCMAKE_MODULE_PATH={VERIF}/support/cmake",
                     f"-DCMAKE_PROJECT_GPRcpp_INCLUDE={VERIF}/support/cmake/inject.cmake",
                     f"-DPYTHON_EXECUTABLE={PY}", "-DPYBIND11_TEST=OFF",
                     "-DPYBIND11_LTO_CXX_FLAGS=", "-DPYBIND11_LTO_LINKER_FLAGS="])
            _compile(b, fh, run)
        shutil.copy2(f"{b}/GPRpy.so", f"{out}/GPRpy.so")
        with open(stamp, "w") as fh:
            fh.write(key)
    return out


# longest first
SLOW = ("bindings", "riemann.", "fluxes.", "lgmres", "eigenvecs", "eig.", "dg2", "dg1.", "globals",
        "legendre", "conditions")


def _compile(b, fh, run):
    """A first build runs the compilations itself, the longest ones first; later ones use ninja."""
    if os.path.exists(f"{b}/.ninja_log"):
        run(["ninja", "-C", b, "-j8", "GPRpy"])
        return
    cmds = subprocess.run(["ninja", "-C", b, "-t", "commands", "GPRpy"], capture_output=True,
                          text=True).stdout.splitlines()
    comp = [c for c in cmds if " -c " in c and " -o " in c]
    rest = [c for c in cmds if c not in comp]
    for c in comp:
        o = re.search(r" -o (\S+)", c).group(1)
        os.makedirs(os.path.dirname(os.path.join(b, o)), exist_ok=True)

    def rank(c):
        f = os.path.basename(c.split(" -c ")[1].split()[0])
        return next((k for k, p in enumerate(SLOW) if f.startswith(p)), len(SLOW))
    comp.sort(key=rank)
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda c: subprocess.run(c, shell=True, cwd=b, capture_output=True,
                                                  text=True), comp))
    for r in rs:
        fh.write(r.stdout + r.stderr)
    if any(r.returncode for r in rs):
        raise BuildError("build failed:\n" + "".join(r.stderr for r in rs)[-2000:])
    for c in rest:
        run(["bash", "-c", f"cd {b} && {c}"])


def _mirror(src, dst, options):
    os.makedirs(dst, exist_ok=True)
    inc = os.path.join(dst, "include")
    os.makedirs(inc, exist_ok=True)
    for f in os.listdir(os.path.join(src, "include")):
        if f != "skfmm" and not os.path.lexists(os.path.join(inc, f)):
            os.symlink(os.path.join(src, "include", f), os.path.join(inc, f))
    for sub in ("src", "bindings", "include/skfmm"):
        t = os.path.join(dst, sub)
        for d, _, fs in os.walk(t):
            for f in fs:
                g = os.path.join(src, os.path.relpath(os.path.join(d, f), dst))
                if not os.path.exists(g):
                    os.remove(os.path.join(d, f))
        for d, _, fs in os.walk(os.path.join(src, sub)):
            t = os.path.join(dst, os.path.relpath(d, src))
            os.makedirs(t, exist_ok=True)
            for f in fs:
                _put(os.path.join(d, f), os.path.join(t, f), options)
    _put(os.path.join(src, "CMakeLists.txt"), os.path.join(dst, "CMakeLists.txt"), {})


def _put(a, b, options):
    with open(a, "rb") as fh:
        data = fh.read()
    if a.endswith("src/options.h"):
        text = data.decode()
        for k, v in options.items():
            text, n = re.subn(rf"(\b{k}\s*=\s*)[^;]*;", rf"\g<1>{v};", text)
            if n != 1:
                raise BuildError(f"options.h: cannot set {k}")
        data = text.encode()
    if not os.path.exists(b) or open(b, "rb").read() != data:
        with open(b, "wb") as fh:
            fh.write(data)


def classes():
    """Directory with the compiled TLC overrides."""
    src = os.path.join(VERIF, "java", "F64.java")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()
    out = os.path.join(BUILD, "classes")
    os.makedirs(out, exist_ok=True)
    stamp = os.path.join(out, "KEY")
    with open(os.path.join(BUILD, "classes.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (os.path.exists(stamp) and open(stamp).read() == key):
            r = subprocess.run(["javac", "-cp", TLAJARS, "-d", out, src],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError("javac: " + r.stderr)
            with open(stamp, "w") as fh:
                fh.write(key)
    return out


if __name__ == "__main__":
    import sys
    classes()
    for v in sys.argv[1:]:
        gprpy("default" if v == "setup" else v)
