"""Builds one harness (plus the modules of /repo it needs) with sanitizers.

Everything is compiled from the current working tree of the repository; ninja
depfiles make repeated builds incremental.  Output goes to /verif/build (ignored).
"""
import glob, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")

DEFS = ["-DBOOST_ENABLE_ASSERT_DEBUG_HANDLER", "-DFMT_SHARED", "-DLF_REDIRECT_ASSERTS",
        "-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE", "-DSPDLOG_COMPILED_LIB",
        "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB"]

# library modules: directories below REPO (every .cc in it is compiled)
MODULES = {
    "base": ["lib/lf/base"],
    "geometry": ["lib/lf/geometry"],
    "mesh": ["lib/lf/mesh", "lib/lf/mesh/hybrid2d", "lib/lf/mesh/utils"],
    "quad": ["lib/lf/quad"],
    "refinement": ["lib/lf/refinement"],
    "refpat": ["lib/lf/refinement/hybrid2d_refinement_pattern.cc"],
    "matlab": ["lib/lf/io/write_matlab.cc"],  # used by refinement
    "matplotlib": ["lib/lf/io/write_matplotlib.cc"],
    "tikz": ["lib/lf/io/write_tikz.cc"],
    "assemble": ["lib/lf/assemble"],
    "fe": ["lib/lf/fe"],
    "uscalfe": ["lib/lf/uscalfe"],
    "io": ["lib/lf/io"],
    "dpg": ["projects/dpg"],
    "fisher": ["projects/fisher_kpp/strangsplitting.cc"],
    "testmesh": ["lib/lf/mesh/test_utils/test_meshes.cc"],
    "annulus": ["projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc"],
    "ipdg": ["projects/ipdg_stokes/assemble", "projects/ipdg_stokes/mesh",
             "projects/ipdg_stokes/post_processing"],
}
EXCLUDE = {"lehrfem_info.cc", "lf_assert.cc"}  # configure-time generated / replaced by the monitor
# translation units for which optimisation only costs compile time
O0 = {"quad_rules_tria.cc", "gmsh_file_v2.cc", "gmsh_file_v4_text.cc", "gmsh_file_v4_binary.cc",
      "gmsh_file_v4.cc", "vtk_writer.cc"}

# compiled without the precompiled header so that they start immediately
NOPCH = {"quad_o1.cc", "quad_rules_tria.cc", "quad_o2.cc", "tria_o2.cc", "mesh_hierarchy.cc", "hybrid2d_mesh.cc"}
# pure data tables: instrumentation costs 15 s and can observe nothing
FILE_FLAGS = {"quad_rules_tria.cc": "-fno-sanitize=all"}

# rough compile cost in seconds: expensive files are started first
WEIGHT = {"quad_o1.cc": 33, "mesh_hierarchy.cc": 23, "quad_o2.cc": 20, "tria_o2.cc": 17, "quad_rules_tria.cc": 16,
          "mesh.cc": 14, "lin_fe.cc": 14, "gauss_quadrature.cc": 13, "tria_o1.cc": 10, "tp_triag_mesh_builder.cc": 8,
          "torus_mesh_builder.cc": 8, "tp_quad_mesh_builder.cc": 7, "segment_o2.cc": 6, "gmsh_file_v2.cc": 40,
          "gmsh_file_v4_text.cc": 45, "vtk_writer.cc": 40, "gmsh_file_v4_binary.cc": 30, "loc_comp_ellbvp.cc": 4}

CONFIGS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer",
             "-fsanitize-ignorelist=" + os.path.join(H, "ubsan_ignore.txt"),
             "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-D_GLIBCXX_ASSERTIONS"],
}


def cxx():
    for c in ("/usr/bin/clang++-18", "/usr/bin/clang++"):
        if os.path.exists(c):
            return c
    return shutil.which("clang++")


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(harness, modules, config="asan", extra_flags=(), extra_sources=(), opt="-O1", log=sys.stderr):
    """returns path of the executable; raises RuntimeError with the log on failure"""
    out = os.path.join(VERIF, "build", config + opt)
    os.makedirs(out, exist_ok=True)
    lld = ["-fuse-ld=lld"] if os.path.exists("/usr/bin/ld.lld") else []
    inc = ["-I" + os.path.join(REPO, "lib"), "-I" + H, "-isystem", "/usr/include/eigen3"]
    if "dpg" in modules:
        inc += ["-I" + os.path.join(REPO, "projects/dpg")]
    if "fisher" in modules:
        inc += ["-I" + os.path.join(REPO, "projects/fisher_kpp")]
    if "ipdg" in modules:
        inc += ["-I" + os.path.join(REPO, "projects/ipdg_stokes", d)
                for d in ("assemble", "mesh", "post_processing")]
    if "dpg" in modules or "ipdg" in modules or "annulus" in modules:
        inc += ["-I" + os.path.join(REPO, "projects")]
    flags = ["-std=gnu++20", "-g1", "-w", "-ftemplate-depth=2000"] + DEFS + CONFIGS[config]
    cmd = " ".join([cxx()] + flags)
    L = ["ninja_required_version = 1.5", "builddir = " + out,
         "rule pch", "  command = %s $opt $inc -x c++-header -MD -MF $out.d $in -o $out" % cmd,
         "  depfile = $out.d", "  deps = gcc",
         "rule ccn", "  command = %s $opt $inc -MD -MF $out.d -c $in -o $out" % cmd,
         "  depfile = $out.d", "  deps = gcc",
         "rule cc", "  command = %s $opt $inc -include-pch $pch -MD -MF $out.d -c $in -o $out" % cmd,
         "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = %s %s $in -o $out -lspdlog -lfmt -lpthread $libs" % (cmd, " ".join(lld)),
         ]
    incs = " ".join(inc)
    tag = harness
    pchs = {}

    def pch(o):
        if o not in pchs:
            p = os.path.join(out, "pch%s.pch" % o)
            L.append("build %s: pch %s" % (esc(p), esc(os.path.join(H, "pch.h"))))
            L.append("  opt = %s\n  inc = %s" % (o, incs))
            pchs[o] = p
        return pchs[o]

    objs = []

    def cc(src, name, o):
        b = os.path.basename(src)
        if b in NOPCH:
            ob = os.path.join(out, "obj", name)
            L.append("build %s: ccn %s" % (esc(ob), esc(src)))
            L.append("  opt = %s %s %s\n  inc = %s" % (o, " ".join(extra_flags), FILE_FLAGS.get(b, ""), incs))
            objs.append(ob)
            return
        p = pch(o)
        ob = os.path.join(out, "obj", name)
        L.append("build %s: cc %s | %s" % (esc(ob), esc(src), esc(p)))
        L.append("  opt = %s %s\n  inc = %s\n  pch = %s" % (o, " ".join(extra_flags), incs, p))
        objs.append(ob)

    cc(os.path.join(H, harness + ".cc"), tag + ".o", opt)
    for e in extra_sources:
        cc(os.path.join(H, e), os.path.basename(e) + ".o", opt)
    srcs, seen = [], set()
    for m in modules:
        for d in MODULES[m]:
            pat = os.path.join(REPO, d)
            for f in sorted(glob.glob(pat if d.endswith(".cc") else pat + "/*.cc")):
                b = os.path.basename(f)
                n = os.path.relpath(f, REPO).replace("/", "_") + ".o"
                if b in EXCLUDE or n in seen:
                    continue
                seen.add(n)
                srcs.append((f, n))
    srcs.sort(key=lambda x: -WEIGHT.get(os.path.basename(x[0]), 0))
    for f, n in srcs:
        cc(f, n, "-O0" if os.path.basename(f) in O0 else opt)
    cc(os.path.join(H, "runtime.cc"), "runtime.o", opt)
    exe = os.path.join(out, "bin_" + tag)
    L.append("build %s: link %s" % (esc(exe), " ".join(esc(o) for o in objs)))
    libs = "-lboost_system" if False else ""
    L.append("  libs = " + libs)
    L.append("default " + esc(exe))
    nf = os.path.join(out, "build_%s.ninja" % tag)
    text = "\n".join(L) + "\n"
    with open(nf, "w") as f:
        f.write(text)
    t = time.time()
    r = subprocess.run(["ninja", "-f", nf, "-j", str(os.cpu_count() or 8)], cwd=out,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        keep = [l for l in r.stdout.splitlines() if "/clang++" not in l]
        raise RuntimeError("build failed:\n" + "\n".join(keep)[:6000])
    return exe, time.time() - t


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2].split(","), *(sys.argv[3:4])))
