"""Builds the compiled extensions from the current tree, in several modes,
outside of the tree, and puts them in place of whatever lies in the package.

plain       as the project builds them
asan        gcc AddressSanitizer + UndefinedBehaviorSanitizer, heap monitor
asan_noomp  the same without OpenMP, as on platforms which lack it
asanh       clang AddressSanitizer (for the Cython extension)
race        hooks of -fsanitize=thread bound to race/race.c, heap monitor
"""
import concurrent.futures
import ctypes
import glob
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import sysconfig

from . import core

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
MODULES = {"ctrans": "skbeam.ext.ctrans", "histogram": "skbeam.core.accumulators.histogram"}
SANFLAGS = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined",
            "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "CCACHE_DIR")}
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")))
    return p.stdout.decode("utf-8", "replace")


def _includes():
    inc = sysconfig.get_paths()["include"]
    import numpy
    return ["-I" + inc, "-I" + numpy.get_include(), "-I" + os.path.join(core.REPO, "src")]


def so_path(scratch, name, mode):
    return os.path.join(scratch, "so-" + mode, name + ".so")


def build_ctrans(mode, scratch):
    out = so_path(scratch, "ctrans", mode)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(core.REPO, "src", "*.c")))
    common = ["-fPIC", "-DNDEBUG", "-fwrapv", "-w"] + _includes()
    race = os.path.join(HERE, "race")
    if mode == "plain":
        _run(["gcc", "-O1", "-g0", "-fno-strict-overflow", "-fopenmp", "-shared"] + common + srcs
             + ["-o", out, "-lm", "-lgomp"])
        return
    icept = ["-include", os.path.join(race, "intercept.h")]
    extra = {"asan": ["-fopenmp"] + SANFLAGS, "asan_noomp": list(SANFLAGS),
             "race": ["-fopenmp", "-fsanitize=thread"]}[mode]
    objs = []
    for n, s in enumerate(srcs):
        o = out + ".%d.o" % n
        _run(["gcc", "-O1", "-g"] + common + icept + extra + ["-c", s, "-o", o])
        objs.append(o)
    for f in (["heap.c", "race.c"] if mode == "race" else ["heap.c"]):
        o = out + "." + f + ".o"
        _run(["gcc", "-O1", "-g", "-fPIC", "-c", os.path.join(race, f), "-o", o]
             + (["-DVM_RACE"] if mode == "race" else []))
        objs.append(o)
    link = {"asan": ["-fopenmp"] + SANFLAGS, "asan_noomp": list(SANFLAGS), "race": []}[mode]
    _run(["gcc", "-shared"] + objs + ["-o", out] + link + ["-lm", "-lpthread", "-ldl"])


def build_histogram(mode, scratch, c_file):
    out = so_path(scratch, "histogram", mode)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = ["-O0", "-g0", "-DNDEBUG", "-fwrapv", "-fPIC", "-w"] + _includes()
    if mode == "asanh":
        flags += ["-fsanitize=address", "-shared-libasan"]
    _run(["clang", "-shared"] + flags + [c_file, "-o", out, "-lm"])


def cythonize(scratch):
    src = os.path.join(core.REPO, "skbeam", "core", "accumulators", "histogram.pyx")
    out = os.path.join(scratch, "histogram.c")
    _run([PY, "-m", "cython", "-3", src, "-o", out], cwd=scratch)
    return out


def build_all(needs, scratch):
    """needs: set of (extension, mode)"""
    needs = set(needs)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(build_ctrans, m, scratch) for n, m in needs if n == "ctrans"]
        h = [m for n, m in needs if n == "histogram"]
        if h:
            c = cythonize(scratch)
            jobs += [ex.submit(build_histogram, m, scratch, c) for m in h]
        for j in jobs:
            j.result()


def _gcc_lib(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], stdout=subprocess.PIPE).stdout.decode().strip()


def _clang_asan():
    p = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE)
    return p.stdout.decode().strip()


def child_env(env, mode, scratch):
    for name in MODULES:
        p = so_path(scratch, name, mode)
        if os.path.exists(p):
            env["VERIF_SO_" + name.upper()] = p
    if mode in ("asan", "asan_noomp"):
        env["LD_PRELOAD"] = _gcc_lib("libasan.so") + " " + _gcc_lib("libubsan.so")
    elif mode == "asanh":
        env["LD_PRELOAD"] = _clang_asan()
    if mode.startswith("asan"):
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:" \
                              "detect_stack_use_after_return=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
        env["PYTHONMALLOC"] = "malloc"
        env["OMP_NUM_THREADS"] = "4"
    if mode in ("plain", "race"):
        env["OMP_NUM_THREADS"] = "4"


def shards(modes, ncpu):
    """How many processes each mode gets."""
    return {m: {"plain": ncpu, "race": 3, "asan": 2, "asan_noomp": 1, "asanh": 4}[m] for m in modes}


LOADED = {}


def inject(mode):
    """In the child: put the freshly built modules in place."""
    for name, full in MODULES.items():
        p = os.environ.get("VERIF_SO_" + name.upper())
        if not p:
            sys.modules[full] = None      # an old build in the tree must not be used
            continue
        pkg, _, leaf = full.rpartition(".")
        parent = importlib.import_module(pkg)
        spec = importlib.util.spec_from_file_location(full, p)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[full] = mod
        spec.loader.exec_module(mod)
        setattr(parent, leaf, mod)
        LOADED[name] = ctypes.CDLL(p)
    import skbeam
    where = os.path.realpath(os.path.dirname(skbeam.__file__))
    assert where == os.path.realpath(os.path.join(core.REPO, "skbeam")), where
    lib = LOADED.get("ctrans")
    if lib is not None and mode != "plain":
        for f in ("vm_heap_live", "vm_heap_allocs", "vm_heap_failed", "vm_heap_badfree"):
            getattr(lib, f).restype = ctypes.c_size_t
        lib.vm_heap_reset.argtypes = [ctypes.c_long, ctypes.c_int]
    if lib is not None and mode == "race":
        lib.vr_config.argtypes = [ctypes.c_int, ctypes.c_uint, ctypes.c_ulong]


def set_threads(n):
    """Number of threads of the next parallel region of the real OpenMP build."""
    lib = ctypes.CDLL("libgomp.so.1")
    lib.omp_set_num_threads(int(n))


class Race:
    """Control of the race monitor."""

    def __init__(self):
        self.lib = LOADED["ctrans"]

    def config(self, threads, delay, seed):
        self.lib.vr_config(threads, delay, seed)

    def stats(self):
        a = (ctypes.c_ulong * 7)()
        self.lib.vr_stats(a)
        return dict(zip(("accesses", "regions", "barriers", "delays", "races", "shared", "dropped"), a))

    def describe(self):
        buf = ctypes.create_string_buffer(8192)
        self.lib.vr_describe(buf, 8192)
        lines = buf.value.decode().splitlines()
        offs = [l.split()[0] for l in lines]
        where = subprocess.run(["addr2line", "-f", "-e", os.environ["VERIF_SO_CTRANS"]] + offs,
                               stdout=subprocess.PIPE).stdout.decode().splitlines()
        return "; ".join("%s in %s at %s" % (" ".join(l.split()[1:]), where[2 * i], os.path.basename(where[2 * i + 1]))
                         for i, l in enumerate(lines))


REPORT = {}


def count(key, n=1):
    REPORT[key] = REPORT.get(key, 0) + n


def report():
    r = dict(REPORT)
    lib = LOADED.get("ctrans")
    if lib is not None and hasattr(lib, "vr_stats"):
        for k, v in Race().stats().items():
            r["race_" + k] = int(v)
    return r


SIGNALS = {-11: "segmentation-fault", -6: "abort", -8: "arithmetic-fault", -7: "bus-error", -4: "illegal-instruction"}


def classify_death(rc, text):
    if rc == 77 or "ERROR: AddressSanitizer" in text:
        m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", text)
        if m and m.group(1) in ("out", "calloc", "allocator"):
            return None
        if m:
            return "asan-" + m.group(1)
        m = re.search(r"runtime error: (.*)", text)
        return "ubsan-" + (m.group(1)[:60] if m else "error")
    if rc is None:
        return "does-not-return"
    return SIGNALS.get(rc)


def sanitizer_report(text):
    for pat in ("ERROR: AddressSanitizer", "runtime error:"):
        k = text.find(pat)
        if k >= 0:
            return text[max(0, k - 200):k + 2500]
    return "\n".join(text.splitlines()[-25:])
