"""Runs the repository's generators natively, on copies of the sources of the working tree: base.exe regenerates the enumerations from the
tables, then the variants of the library are generated from the result, as scripts/build.ci.ps1 does."""
import os, shutil, subprocess
import vf

OUT = {"segmented": "gen.hpp gen.cpp gen.dep.hpp gen.dep.cpp gen.builder.hpp gen.builder.cpp gen.scanner.hpp gen.scanner.cpp".split(), "singleheader": ["gen.hpp"]}


def stage(c):
    d = f"{c.tmp}/stage"
    if not os.path.isdir(d):
        os.mkdir(d)
        for t in ("base", "gen_segmented", "gen_singleheader", "gen_c_library", "scripts"):
            if os.path.isdir(f"{vf.REPO}/{t}"):
                shutil.copytree(f"{vf.REPO}/{t}", f"{d}/{t}", ignore=shutil.ignore_patterns("build", "*.exe") if t == "base" else shutil.ignore_patterns("build", "gen", "*.exe"))
    return d


def run(c, name, src, cwd, outs):
    """Compiles a generator and runs it in its directory; every output must be written anew."""
    d = stage(c)
    exe = f"{d}/{name}.bin"
    c.sh(["clang++-18", *vf.LIBFLAGS, "-O0", "-DGEN_BUILD_DEBUG=1", "-include", f"{vf.HARN}/prelude.hpp", f"-I{d}/base", f"{d}/{src}", c.shim(False), "-o", exe])
    for x in ("build", "gen"): os.makedirs(f"{d}/{cwd}/{x}", exist_ok=True)
    for o in outs:
        if os.path.exists(f"{d}/{cwd}/{o}"): os.unlink(f"{d}/{cwd}/{o}")
    rc, out = c.sh([exe], timeout=240, env={"VF_FSROOT": d, "VF_LOG": "2", "LC_ALL": "C.UTF-8"}, cwd=f"{d}/{cwd}", check=False)
    missing = [o for o in outs if not os.path.exists(f"{d}/{cwd}/{o}") or os.path.getsize(f"{d}/{cwd}/{o}") == 0]
    if rc != 0 or missing:
        raise vf.CheckError(f"generator {name}: exit {rc}, not written: {missing}\n{out[-3000:]}")


def regenerated_base(c):
    """The base library with the enumerations its own tables give."""
    d = stage(c)
    if not os.path.exists(f"{d}/base.bin"):
        run(c, "base", "base/base.cpp", "base", [f"components/gen/{x}.hpp" for x in ("ecodetypes", "eoperator", "especifier", "etoktype", "ast_inlines")])
    return f"{d}/base"


def variant(c, which):
    """The directory a generated variant of the library is in."""
    regenerated_base(c)
    d = stage(c)
    if not os.path.exists(f"{d}/{which}.bin"):
        run(c, which, f"gen_{which}/{which}.cpp", f"gen_{which}", [f"gen/{o}" for o in OUT[which]])
    return f"{d}/gen_{which}/gen"
