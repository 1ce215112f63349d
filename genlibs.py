"""Generates gencpp's libraries from the working tree the way its build does, and compiles each one behind the interface of mc/lib.inl.

base.cpp is run first (it regenerates components/gen), then the four generators; all of them are compiled natively against the Windows
stand-ins of mc/. What they write is, clang-format aside, what the real build writes."""
import os, re, shutil, subprocess

GENS = dict(segmented=("gen_segmented", ["gen.hpp", "gen.cpp", "gen.dep.hpp", "gen.dep.cpp", "gen.builder.hpp", "gen.builder.cpp", "gen.scanner.hpp", "gen.scanner.cpp"]),
            singleheader=("gen_singleheader", ["gen.hpp"]),
            unreal=("gen_unreal_engine", ["gen.hpp", "gen.cpp", "gen.dep.hpp", "gen.dep.cpp", "gen.builder.hpp", "gen.builder.cpp", "gen.scanner.hpp", "gen.scanner.cpp"]),
            c_library=("gen_c_library", ["gen_singleheader.h", "gen.h", "gen.c", "gen.dep.h", "gen.dep.c"]))
class Broken(Exception):
    pass

def flags(mc):
    return ["-w", "-fms-extensions", "-D_WIN32", "-D_WIN64", "-D__int64=long", "-DGEN_STATIC_LINK", "-DGEN_TIME", "-DGEN_BUILD_DEBUG=1",
            "-include", mc + "/shim/prelude.h", "-I" + mc + "/shim", "-I" + mc]
CXX = ["clang++-18", "-std=c++17", "-fno-exceptions", "-fdelayed-template-parsing"]
C = ["clang-18", "-x", "c", "-std=c11", "-fgnu89-inline", "-D__null=0"]

def all_of(jobs, what):
    ps = [(n, subprocess.Popen(c, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")) for n, c, d, e in jobs]
    bad = None
    for n, p in ps:
        try: out, _ = p.communicate(timeout=200)
        except subprocess.TimeoutExpired: p.kill(); out = "does not end"; p.returncode = 1
        if p.returncode and not bad: bad = "%s: %s (%s)\n%s" % (n, what, p.returncode, out[-2500:] if "run" in what else "\n".join(re.findall(r".*(?:error|undefined).*", out)[:8]))
    if bad and (what in ("does not compile", "does not link") or bad.startswith("base:") and "compile" in what): raise SystemExit("genlibs.py: " + bad)
    if bad: raise Broken(bad)

def refactor(path, spec):
    words = {}
    for l in open(spec, errors="replace"):
        m = re.match(r"\s*word\s+(\w+)\s*,\s*(\w+)", l)
        if m: words.setdefault(m.group(1), m.group(2))
    t = open(path, newline="", errors="surrogateescape").read()
    t = re.sub(r"\w+", lambda m: words.get(m.group(0), m.group(0)), t, flags=re.A)
    open(path, "w", newline="", errors="surrogateescape").write(t)

def generate(repo, mc, work, fmt=False):
    """-> the folder with the generated libraries in gen_*/gen"""
    g = os.path.join(work, "generated"); os.makedirs(g)
    for d in ["base"] + [x[0] for x in GENS.values()] + ["scripts"]:
        shutil.copytree(os.path.join(repo, d), os.path.join(g, d), ignore=shutil.ignore_patterns(*(["gen", "build"] if d.startswith("gen_") else ["build", "*.exe"])))
    env = dict(os.environ, MC_TMP=work)
    if not fmt: env["MC_NO_FORMAT"] = "1"
    def compile_(items):
        return [(n, ["bash", "-c", 'exec "$@"', "-"] + CXX + ["-O0"] + flags(mc) + ["-I" + g + "/base", '-DGENERATOR="%s/%s/%s.cpp"' % (g, d, n), "-c", mc + "/genmain.cpp", "-o", g + "/" + n + ".o"], g, None) for n, d in items]
    def link(items):
        return [(n, ["clang++-18", g + "/" + n + ".o", g + "/shim.o", "-o", g + "/" + n + ".exe", "-lpthread"], g, None) for n, d in items]
    def run(items):
        for n, d in items: os.makedirs(os.path.join(g, d, "gen"), exist_ok=True); os.makedirs(os.path.join(g, d, "build"), exist_ok=True)
        return [(n, [g + "/" + n + ".exe"], os.path.join(g, d), env) for n, d in items]
    b = [("base", "base")]; rest = [(n, x[0]) for n, x in GENS.items()]
    all_of(compile_(b) + [("shim", CXX + ["-O0"] + flags(mc) + ["-c", mc + "/winshim.cpp", "-o", g + "/shim.o"], g, None)], "does not compile")
    all_of(link(b), "does not link"); all_of(run(b), "run failed")
    all_of(compile_(rest), "does not compile"); all_of(link(rest), "does not link"); all_of(run(rest), "run failed")
    for n, (d, outs) in GENS.items():
        for o in outs:
            if not os.path.exists(os.path.join(g, d, "gen", o)) or not os.path.getsize(os.path.join(g, d, "gen", o)): raise Broken("%s did not write %s" % (n, o))
    for f in os.listdir(g + "/gen_unreal_engine/gen"):
        if re.match(r"gen.*\.[ch]pp$", f): refactor(os.path.join(g, "gen_unreal_engine/gen", f), g + "/gen_unreal_engine/unreal.refactor")
    return g

def compile_libs(g, mc, opt):
    """-> the objects with lib_<name>_* for base, single, seg, ue, c and cs"""
    def cpp(name, header, inc, extra=[]):
        src = os.path.join(g, name + ".lib.cpp")
        open(src, "w").write('#define LIB %s\n#define GEN_IMPLEMENTATION\n#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS\n%s\nusing namespace gen;\n#include "lib.inl"\n' % (name, "\n".join('#include "%s"' % h for h in header)))
        return (name, CXX + opt + flags(mc) + ["-Dgen=gen_%s_" % name, "-DGEN_EXPOSE_BACKEND"] + extra + ["-I" + os.path.join(g, i) for i in inc] + ["-c", src, "-o", src + ".o"], g, None), src + ".o"
    def c(name, header, inc, extra=[]):
        src = os.path.join(g, name + ".lib.c")
        open(src, "w").write('#define LIB %s\n#define LIBC\n#define GEN_IMPLEMENTATION\n#define GEN_DEFINE_LIBRARY_CODE_CONSTANTS\n%s\n#include "lib.inl"\n' % (name, "\n".join('#include "%s"' % h for h in header)))
        return (name, C + opt + flags(mc) + extra + ["-I" + os.path.join(g, i) for i in inc] + ["-c", src, "-o", src + ".o"], g, None), src + ".o"
    seg = open(g + "/gen_segmented/gen/gen.cpp", errors="replace").read(); ue = open(g + "/gen_unreal_engine/gen/gen.cpp", errors="replace").read()
    dep = lambda t: [] if re.search(r'include\s+"gen\.dep\.cpp"', t) else ["gen.dep.cpp"]
    jobs = [cpp("base", ["gen.cpp"], ["base"]),
            cpp("single", ["gen.hpp"], ["gen_singleheader/gen"]),
            cpp("seg", ["gen.hpp"] + dep(seg) + ["gen.cpp", "gen.builder.cpp", "gen.scanner.cpp"], ["gen_segmented/gen"]),
            cpp("ue", ["gen.hpp"] + dep(ue) + ["gen.cpp", "gen.builder.cpp", "gen.scanner.cpp"], ["gen_unreal_engine/gen"], ["-DFORCEINLINE=inline", "-DFORCEINLINE_DEBUGGABLE=inline"]),
            c("c", ["gen_singleheader.h"], ["gen_c_library/gen"])]
    all_of([j for j, _ in jobs], "the generated library does not compile")
    return [o for _, o in jobs]
