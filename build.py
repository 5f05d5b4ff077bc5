#!/usr/bin/env python3
"""Builds the harnesses against /repo's current sources.

  build.py VARIANT HARNESS...   prints the path of each executable

Variants (all use mc/cfg/Omega_h_config.h instead of the generated one):
  mpi    the library over mc/mpi (in-process MPI under the explorer's control)
  asan   the same with AddressSanitizer and UndefinedBehaviorSanitizer
  omp    the library with its OpenMP back end over mc/omp (controlled threads)
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NOT_BUILT = {"Omega_h_for.cpp", "Omega_h_exodus.cpp", "Omega_h_dolfin.cpp",
             "Omega_h_egads.cpp", "Omega_h_stk.cpp", "Omega_h_meshb.cpp"}

# uninitialized locals get a fixed pattern, so that executions repeat
COMMON = "-std=c++14 -w -g0 -ftrivial-auto-var-init=pattern"
VARIANTS = {
    "mpi": dict(lib="-O1", har="-O1", link="", core=["mc/mc.cpp", "mc/mpi/minimpi.cpp"], inc=["mc/mpi"]),
    "asan": dict(lib="-O1 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
                 har="-O1 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
                 link="-fsanitize=address,undefined", core=["mc/mc.cpp", "mc/mpi/minimpi.cpp"], inc=["mc/mpi"]),
    "omp": dict(lib="-O1 -fopenmp -DMC_OPENMP -fsanitize=thread",
                har="-O1", hlib="-O1 -fopenmp -DMC_OPENMP -fsanitize=thread", link="-rdynamic -ldl -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset",
                core=["mc/mc.cpp", "mc/mpi/minimpi.cpp", "mc/omp/miniomp.cpp"], inc=["mc/mpi", "mc/omp"]),
}


def lib_sources():
    names = []
    try:
        text = open(f"{REPO}/src/CMakeLists.txt").read()
        names = re.findall(r"\b(Omega_h_\w+\.cpp)\b", text)
    except OSError:
        pass
    names = [n for n in dict.fromkeys(names) if n not in NOT_BUILT]
    names = [n for n in names if os.path.exists(f"{REPO}/src/{n}")]
    if len(names) < 50:
        names = sorted(os.path.basename(p) for p in glob.glob(f"{REPO}/src/Omega_h_*.cpp"))
        names = [n for n in names if n not in NOT_BUILT]
    return names


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def all_files(d, exts):
    out = []
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith(exts):
                out.append(os.path.join(root, f))
    return out


def build(variant, harnesses, verbose=False):
    v = VARIANTS[variant]
    srcs = lib_sources()
    deps = [p for p in all_files(f"{REPO}/src", (".cpp", ".hpp", ".h", ".txt"))]
    deps += all_files(f"{REPO}/tpl", (".hpp", ".h"))
    deps += all_files(f"{HERE}/mc/cfg", (".h",)) + [f"{HERE}/mc/mpi/mpi.h", f"{HERE}/build.py"]
    deps += all_files(f"{HERE}/mc/omp", (".hpp", ".h"))
    key = tree_hash(deps)
    root = os.environ.get("VERIF_BUILD", f"{HERE}/build")
    os.makedirs(root, exist_ok=True)
    bdir = f"{root}/{variant}-{key}"
    lock = open(f"{root}/lock.{variant}", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    # keep the three most recent trees of a variant
    old = sorted(glob.glob(f"{root}/{variant}-*"), key=os.path.getmtime)
    for d in [d for d in old if d != bdir][:-2]:
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    os.utime(bdir)
    ccache = ""
    if shutil.which("ccache") and os.environ.get("VERIF_CCACHE", "1") == "1":
        ccache = "ccache "
        os.environ.setdefault("CCACHE_DIR", f"{root}/ccache")
        os.environ.setdefault("CCACHE_MAXSIZE", "3G")
        os.environ.setdefault("CCACHE_NOHASHDIR", "1")
    inc = f"-I{HERE}/mc/cfg " + " ".join(f"-I{HERE}/{i}" for i in v["inc"])
    inc += f" -I{HERE}/mc -I{REPO}/src -I{REPO}/tpl"
    n = []
    n.append(f"rule cc\n  command = {ccache}g++ {COMMON} $fl {inc} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n")
    n.append("rule redef\n  command = objcopy --redefine-sym main=$name $in $out\n")
    n.append("rule ar\n  command = rm -f $out && ar rcs $out $in\n")
    n.append(f"rule ld\n  command = g++ $in {v['link']} -lz -lpthread -o $out\n")
    objs = []
    for s in srcs:
        o = f"lib/{s}.o"
        n.append(f"build {o}: cc {REPO}/src/{s}\n  fl = {v['lib']}\n")
        objs.append(o)
    n.append("build libomega_h.a: ar " + " ".join(objs) + "\n")
    cobjs = []
    for s in v["core"]:
        o = f"core/{os.path.basename(s)}.o"
        n.append(f"build {o}: cc {HERE}/{s}\n  fl = {v['har']}\n")
        cobjs.append(o)
    exes = []
    for h in harnesses:
        n.append(f"build har/{h}.o: cc {HERE}/harness/{h}.cpp\n  fl = {v.get('hlib', v['lib'])}\n")
        extra = []
        with open(f"{HERE}/harness/{h}.cpp") as f:
            tools = re.findall(r"^// tools: (.*)$", f.read(), re.M)
        for t in " ".join(tools).split():
            # a command line tool, its main renamed to tool_NAME
            n.append(f"build tool/{t}.main.o: cc {REPO}/src/{t}.cpp\n  fl = {v['lib']}\n")
            n.append(f"build tool/{t}.o: redef tool/{t}.main.o\n  name = tool_{t}\n")
            extra.append(f"tool/{t}.o")
        n.append(f"build {h}: ld har/{h}.o {' '.join(extra + cobjs)} libomega_h.a\n")
        exes.append(f"{bdir}/{h}")
    nin = f"{bdir}/{'_'.join(harnesses)[:120] or 'lib'}.ninja"
    with open(nin, "w") as f:
        f.write("builddir = " + bdir + "\n" + "".join(n))
    jobs = os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8))
    r = subprocess.run(["ninja", "-C", bdir, "-f", nin, "-j", jobs] + (harnesses or ["libomega_h.a"]),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    fcntl.flock(lock, fcntl.LOCK_UN)
    if r.returncode != 0:
        i = r.stdout.find('FAILED:')
        sys.stdout.write(r.stdout[max(i, 0):][:3000])
        raise SystemExit(2)
    if verbose:
        sys.stdout.write(r.stdout[-300:])
    return exes


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        # the library alone, so that the first check has less to do
        build("mpi", [])
        sys.exit(0)
    for e in build(sys.argv[1], sys.argv[2:]):
        print(e)
