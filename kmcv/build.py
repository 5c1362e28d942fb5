"""Build the KMCLib extension modules from the current tree of /repo, outside of /repo.

Every translation unit is compiled from a private copy of /repo/c++ taken when the check
starts, so that a check always sees the working tree and never the artefacts that an earlier
build left in /repo.  Objects are kept in a content-addressed cache (key: preprocessed source
and flags) below CACHE, which only makes repeated runs faster.
"""
import concurrent.futures as cf
import hashlib, os, shutil, subprocess, sys, tarfile, tempfile

REPO = os.environ.get("KMCV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("KMCV_CACHE", os.path.join(VERIF, ".cache"))
PY = "/opt/venv/bin/python"
PYINC = "/usr/include/python3.12"
JOBS = min(8, os.cpu_count() or 1)

COMMON = ["-fPIC", "-std=c++0x", "-isystem", PYINC, "-w", "-fno-strict-aliasing"]
VARIANTS = {
    # what a user gets: the project's own optimisation flags
    "plain": dict(cxx="g++", mpi=False, flags=["-O3", "-ffast-math"], link=["-Wl,-Bsymbolic"]),
    # memory and UB sanitizers, plus checked containers and iterators
    "asan": dict(cxx="g++", mpi=False,
                 flags=["-O1", "-g1", "-ffast-math", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                        "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"],
                 link=["-fsanitize=address,undefined"]),
    # parallel build
    "mpi": dict(cxx="mpicxx", mpi=True, flags=["-O3", "-ffast-math"], link=["-Wl,-Bsymbolic"]),
}


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-4000:]))
    return p.stdout


def _compile(cxx, src, flags, incs, obj, cpp_dir):
    pre = _run([cxx] + flags + incs + ["-E", "-P", src], cwd=cpp_dir)
    key = hashlib.sha256(repr((cxx, flags)).encode() + b"\0" + pre).hexdigest()
    store = os.path.join(CACHE, "obj", key[:2], key + ".o")
    if not os.path.exists(store):
        os.makedirs(os.path.dirname(store), exist_ok=True)
        tmp = "%s.%d.tmp" % (store, os.getpid())
        _run([cxx] + flags + incs + ["-c", src, "-o", tmp], cwd=cpp_dir)
        os.replace(tmp, store)
    return store


def build(variant, dest):
    """Create dest/KMCLib: the package of the current tree with freshly built extensions."""
    v = VARIANTS[variant]
    os.makedirs(dest, exist_ok=True)
    cpp = os.path.join(dest, "cpp")
    for d in ("src", "custom", "wrap"):
        shutil.copytree(os.path.join(REPO, "c++", d), os.path.join(cpp, d),
                        ignore=shutil.ignore_patterns("custom.i", "mpiflag.h", "*.o"))
    with tarfile.open(os.path.join(REPO, "c++/externals/zip/md5.tar.gz")) as t:
        t.extractall(cpp)
    inc = os.path.join(cpp, "include", "externals")
    os.makedirs(inc)
    shutil.copy(os.path.join(cpp, "md5", "md5.h"), inc)
    with open(os.path.join(cpp, "src", "mpiflag.h"), "w") as f:
        f.write("#define RUNMPI %s\n" % ("true" if v["mpi"] else "false"))
    headers = sorted(f for f in os.listdir(os.path.join(cpp, "custom")) if f.endswith(".h"))
    with open(os.path.join(cpp, "wrap", "custom.i"), "w") as f:
        for h in ("std_vector.i", "std_map.i", "std_string.i", "std_pair.i", "ratecalculator.h"):
            f.write('%%include "%s"\n' % h)
        f.write("%module Custom\n%template() std::vector<int>;\n%{\n")
        for h in headers:
            f.write('#include "../custom/%s"\n' % h)
        f.write("%}\n")
        for h in headers:
            f.write('%%include "../custom/%s"\n' % h)
    incs = ["-Isrc", "-Icustom", "-Iinclude", "-Iwrap"]
    wrapped = []
    for name in ("backend", "custom"):
        out = os.path.join(cpp, "wrap", name + "_wrap.cxx")
        _run(["swig", "-python", "-c++", "-Isrc", "-Icustom", "-Iwrap", "-outdir", "wrap",
              "-o", "wrap/%s_wrap.cxx" % name, "wrap/%s.i" % name], cwd=cpp)
        wrapped.append("wrap/%s_wrap.cxx" % name)

    srcs = ["src/" + f for f in sorted(os.listdir(os.path.join(cpp, "src"))) if f.endswith(".cpp")]
    cust = ["custom/" + f for f in sorted(os.listdir(os.path.join(cpp, "custom"))) if f.endswith(".cpp")]
    # Slowest first.
    todo = wrapped + srcs + cust + ["md5/md5.c"]
    flags = COMMON + v["flags"]
    wflags = [f if f not in ("-O3", "-O1") else "-O0" for f in flags]

    def one(s):
        return _compile(v["cxx"], s, wflags if s in wrapped else flags, incs, None, cpp)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = dict(zip(todo, ex.map(one, todo)))

    pkg = os.path.join(dest, "KMCLib")
    shutil.copytree(os.path.join(REPO, "python/src/KMCLib"), pkg,
                    ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "*.so", "Backend.py", "Custom.py"))
    core = [objs[s] for s in srcs] + [objs["md5/md5.c"]]
    jobs = []
    for mod, extra in (("Backend", [objs["wrap/backend_wrap.cxx"]]),
                       ("Custom", [objs["wrap/custom_wrap.cxx"]] + [objs[s] for s in cust])):
        jobs.append([v["cxx"], "-shared"] + v["link"] + ["-o", os.path.join(pkg, "Backend", "_%s.so" % mod)]
                    + extra + core)
        shutil.copy(os.path.join(cpp, "wrap", mod + ".py"), os.path.join(pkg, "Backend", mod + ".py"))
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(_run, jobs))
    return dest


def helper(name):
    """Path of a shared library built from kmcv/helpers/NAME.cpp."""
    src = os.path.join(VERIF, "kmcv", "helpers", name + ".cpp")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:24]
    lib = os.path.join(CACHE, "helpers", "%s-%s.so" % (name, key))
    if not os.path.exists(lib):
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        tmp = "%s.%d.tmp" % (lib, os.getpid())
        _run(["g++", "-O2", "-std=c++11", "-shared", "-fPIC", src, "-o", tmp])
        os.replace(tmp, lib)
    return lib


def scratch(prefix="kmcv-"):
    return tempfile.mkdtemp(prefix=prefix)


def env_for(dest, variant, **extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "LD_PRELOAD"))}
    e.update(PYTHONPATH=dest + os.pathsep + VERIF, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LANG="C.UTF-8")
    if variant == "asan":
        lib = _run(["g++", "-print-file-name=libasan.so"]).decode().strip()
        ub = _run(["g++", "-print-file-name=libubsan.so"]).decode().strip()
        e.update(LD_PRELOAD="%s:%s" % (os.path.realpath(lib), os.path.realpath(ub)), PYTHONMALLOC="malloc",
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                              "detect_stack_use_after_return=0:handle_abort=1",
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99")
    if variant == "mpi":
        e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
                 OMPI_MCA_btl_vader_single_copy_mechanism="none")
    e.update(extra)
    return e


if __name__ == "__main__":
    import time
    for var in sys.argv[1:] or ["plain"]:
        t = time.time()
        d = scratch()
        build(var, d)
        print(var, d, round(time.time() - t, 1))
