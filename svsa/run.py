"""Build harness translation units against /repo's current tree and run irx on them."""
import atexit, os, subprocess, sys, tempfile, hashlib, json, threading, time, fcntl, shutil
from . import ir

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SVS_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
FLAGS = """-std=gnu++20 -fsized-deallocation -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL
 -DSPDLOG_SHARED_LIB -DSVS_CHECK_BOUNDS=0 -DSVS_ENABLE_NUMA=0 -DSVS_INITIALIZE_LOGGER=1 -DSVS_HAVE_MKL=0
 -DSVS_VERSION_MAJOR=0 -DSVS_VERSION_MINOR=0 -DSVS_VERSION_PATCH=4""".split()
ARCH = ["-march=x86-64-v4", "-mavx512vnni"]
OPT = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fstandalone-debug", "-DNDEBUG", "-w"]


class Broken(Exception):
    """The analysis could not be carried out (not a verdict)."""


def tool():
    """Path of irx, building it when missing or older than its source."""
    src = os.path.join(ROOT, "tool", "irx.cpp")
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "irx-" + h)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        lc = "llvm-config-18" if shutil.which("llvm-config-18") else "llvm-config"
        cxx = [f for f in subprocess.check_output([lc, "--cxxflags"], text=True).split()
               if not f.startswith("-std=") and f != "-fno-exceptions"]
        ld = subprocess.check_output([lc, "--ldflags"], text=True).split()
        tmp = out + ".tmp"
        cmd = [CLANG, "-O2", "-std=c++17", *cxx, "-fexceptions", "-w", src, "-o", tmp, *ld, "-lLLVM-18"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken("cannot build irx: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def includes():
    return [f"-I{ROOT}/harness", f"-I{REPO}/include", "-isystem", "/opt/vp/deps/tomlplusplus/include"]


def compile_bc(src, out, extra=(), arch=ARCH, opt=OPT):
    cmd = [CLANG, *FLAGS, *arch, *includes(), *opt, *extra, "-emit-llvm", "-c", src, "-o", out]
    return subprocess.run(cmd, capture_output=True, text=True)


DEFAULT_OPAQUE = """opaque ^fmt::
opaque ^tsl::
opaque ^toml::
opaque ^spdlog::
opaque ^std::filesystem
opaque ^std::__cxx11::
opaque ^std::vector::(~?vector|push_back|emplace_back|resize|reserve|insert|erase|assign|clear|_M_(?!data_ptr)|operator=|swap|pop_back)
opaque ^std::(_Vector_base|unordered_|_Hashtable|__detail::(?!__extent)|shared_ptr|__shared|function|thread|mutex|shared_mutex|condition_variable)
opaque ^std::(sort|__sort|random|uniform|mersenne|generate_canonical|_Function|__invoke$)
opaque ^svs::logging::
"""


class Workdir:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="svsa-")

    def __enter__(self):
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# Bitcode and precompiled headers are kept for the length of one run (they are rebuilt from the current tree every time).
_keep = {"dir": None}
_mk = threading.Lock()
_cache = {}


def _once(key, make):
    with _mk:
        if _keep["dir"] is None:
            _keep["dir"] = tempfile.mkdtemp(prefix="svsa-")
            atexit.register(shutil.rmtree, _keep["dir"], True)
        e = _cache.setdefault(key, {"lock": threading.Lock()})
        path = os.path.join(_keep["dir"], str(len(_cache)))
    with e["lock"]:
        if "v" not in e:
            e["v"] = make(e.setdefault("path", path))
        return e["v"]


PCH = """svs/core/data.h svs/core/distance.h svs/core/graph.h svs/index/flat/flat.h svs/index/inverted/clustering.h
 svs/index/inverted/memory_based.h svs/index/vamana/consolidate.h svs/index/vamana/dynamic_index.h
 svs/index/vamana/greedy_search.h svs/index/vamana/index.h svs/index/vamana/prune.h svs/index/vamana/vamana_build.h""".split()


def pch(src):
    """Precompiled repository headers, preceded by the same models of standard algorithms as the harness uses; None when
    they cannot be precompiled (the harness is then compiled on its own)."""
    models = [m for m in ("algo_model.h", "std_model.h") if f'#include "{m}"' in open(src).read()]

    def make(base):
        with open(base + ".h", "w") as f:
            f.write("".join(f'#include "{h}"\n' for h in models + PCH))
        r = subprocess.run([CLANG, *FLAGS, *ARCH, *includes(), *OPT, "-fpch-instantiate-templates", "-x", "c++-header", base + ".h", "-o", base + ".pch"], capture_output=True, text=True)
        return base + ".pch" if r.returncode == 0 else None
    return _once(("pch", *models), make)


def bitcode(harness, extra, arch, usepch):
    src = os.path.join(ROOT, "harness", harness)

    def make(base):
        if usepch and arch == ARCH and (h := pch(src)):
            r = compile_bc(src, base + ".bc", [*extra, "-include-pch", h], arch)
            if r.returncode == 0:
                return base + ".bc", r
        return base + ".bc", compile_bc(src, base + ".bc", extra, arch)
    return _once(("bc", harness, tuple(extra), tuple(arch)), make)


def analyse(harness, policy, extra=(), arch=ARCH, keep=None, default=True, pch=False):
    """Compile harness/<harness>.cpp and run irx with the policy text; returns ir.Module."""
    t = tool()
    with Workdir() as d:
        pol, js = os.path.join(d, "p.txt"), os.path.join(d, "o.json")
        bc, r = bitcode(harness, extra, arch, pch)
        if r.returncode:
            raise Broken(f"harness {harness} does not compile against {REPO}: " + r.stderr[-3000:])
        with open(pol, "w") as f:
            f.write((DEFAULT_OPAQUE if default else "") + policy)
        r = subprocess.run([t, bc, pol, js], capture_output=True, text=True)
        if r.returncode:
            raise Broken("irx failed: " + r.stderr[-2000:])
        m = ir.Module(js)
        if keep:
            shutil.copy(js, keep)
    return m
