"""Compile the C sources of /repo's working tree to LLVM bitcode (never executed)."""
import os, subprocess, tempfile, glob, sys
REPO = os.environ.get("ZSA_REPO", "/repo")
BASE = ["-Iinclude", "-DZYCORE_STATIC_BUILD", "-D_GNU_SOURCE", "-D_CRT_SECURE_NO_WARNINGS", "-std=gnu99", "-w"]
CONFIGS = {
    "debug": [],                       # what the project's build uses: assertions on
    "ndebug": ["-DNDEBUG"],
    "nolibc": ["-DZYAN_NO_LIBC", "-ffreestanding"],
    "fmt32": ["-I."],                  # src/Format.c with its 32-bit code paths
    "inline": [],                      # the inline functions and macros of the public headers
    "inline_nolibc": ["-DZYAN_NO_LIBC", "-ffreestanding"],
    "libc": ["-DZYAN_NO_LIBC", "-ffreestanding"],      # the fallbacks of LibC.h
    "macros": [],                      # the container macros, in C
    "macros_cxx": [],                  # and in C++
}
PASSES = "function(sroa,early-cse,simplifycfg,loop-simplify,lcssa)"
PASSES = "function(sroa,loop-simplify)"


class BuildError(Exception):
    pass


def sources():
    fs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")) + glob.glob(os.path.join(REPO, "src", "API", "*.c")))
    if len(fs) < 10:
        raise BuildError("only %d source files found under %s/src" % (len(fs), REPO))
    return fs


def compile_unit(src, out, config="debug", extra=()):
    base = BASE
    if config == "macros_cxx" and src.endswith("macros.c"):
        base = ["-x", "c++", "-std=c++17", "-fno-exceptions"] + [x for x in BASE if not x.startswith("-std")]
    cmd = ["clang"] + base + ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-c", src, "-o", out,
           "-fno-discard-value-names", "-fno-inline"] + CONFIGS[config] + list(extra)
    r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("clang failed on %s:\n%s" % (src, r.stderr[-2000:]))
    out2 = out[:-3] + ".opt.bc"
    r = subprocess.run(["opt" if False else "/usr/lib/llvm-18/bin/opt", "-passes=" + PASSES, out, "-o", out2],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt failed on %s:\n%s" % (src, r.stderr[-2000:]))
    return out2


def build_module(config="debug", srcs=None, extra=()):
    from concurrent.futures import ThreadPoolExecutor
    from .llvmc import Module
    srcs = srcs or sources()
    if config.startswith("inline"):
        srcs = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "inline.c"), os.path.join(REPO, "src", "Zycore.c")]
    if config == "libc":
        srcs = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "libc.c")]
    if config.startswith("macros"):
        srcs = srcs + [os.path.join(os.path.dirname(os.path.abspath(__file__)), "macros.c")]
    if config == "fmt32":
        srcs = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "fmt32.c") if s.endswith("/Format.c") else s for s in srcs]
    with tempfile.TemporaryDirectory(prefix="zsa") as td:
        def one(iv):
            i, s = iv
            return compile_unit(s, os.path.join(td, "u%d.bc" % i), config, extra)
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, enumerate(srcs)))
        linked = os.path.join(td, "all.bc")
        r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-link", "-o", linked] + outs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("llvm-link failed:\n" + r.stderr[-2000:])
        m = Module(linked)
    m.srcs = srcs
    m.config = config
    return m


_std = []


def std_function(name):
    """the standard's meaning of a library function without a model of its own"""
    if not _std:
        from .llvmc import Module
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "std.c")
        with tempfile.TemporaryDirectory(prefix="zsa") as td:
            _std.append(Module(compile_unit(src, os.path.join(td, "std.bc"), "debug", ["-ffreestanding"])))
    f = _std[0].functions.get(name)
    return None if f is None or f.decl else f


def compile_layout():
    from .llvmc import Module
    from .world import Layout
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "layout.c")
    with tempfile.TemporaryDirectory(prefix="zsa") as td:
        out = os.path.join(td, "l.bc")
        cmd = ["clang", "-O0", "-emit-llvm", "-c", src, "-o", out] + BASE
        r = subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("layout facts do not compile:\n" + r.stderr[-3000:])
        return Layout(Module(out))
