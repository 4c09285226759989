"""Builds the code under test from /repo's current working tree.

Variants (all built outside /repo, under $VERIF_BUILD or /verif/build):
  ext   the Python extension with setup.py's flags (what users run)
  hooks the same with -DGRAPHILLION_VERIF_HOOKS and a wrapped BDD_Init
  asan  the same under AddressSanitizer, bounds checks and libstdc++ assertions
  omp   the same on a controlled OpenMP runtime (native/ompshim.cc)
A build directory is named by a hash of every input (sources, flags), so a
changed tree is never judged with an older build.
"""
import ast, fcntl, hashlib, os, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    pass


def sources():
    """The extension's source list, read from setup.py (fallback: glob)."""
    found = []
    try:
        tree = ast.parse(open(os.path.join(REPO, "setup.py")).read())
        for node in ast.walk(tree):
            if isinstance(node, ast.Call) and getattr(node.func, "attr", "") == "join":
                parts = [a.value for a in node.args if isinstance(a, ast.Constant)]
                if parts and parts[-1].endswith((".cc", ".cpp")):
                    found.append("/".join(parts))
    except (OSError, SyntaxError):
        pass
    if not found:
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            if d.endswith(("/test", "/mingw32")):
                continue
            found += [os.path.relpath(os.path.join(d, f), REPO)
                      for f in fs if f.endswith(".cc")]
    return sorted(set(found))


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for top in ("src", "graphillion"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, top))):
            ds[:] = sorted(x for x in ds if x not in ("__pycache__", "test"))
            for f in sorted(fs):
                if f.endswith((".pyc", ".o", ".so")):
                    continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    try:
        h.update(open(os.path.join(REPO, "setup.py"), "rb").read())
    except OSError:
        pass
    return h.hexdigest()[:16]


def _run(cmd, cwd):
    e = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


BASE = ["-fno-strict-overflow", "-DNDEBUG", "-fPIC", "-DB_64", "-w",
        "-Wno-maybe-uninitialized"]


def compile_objs(out, srcs, cflags, jobs=None, cxx="g++"):
    cxx = ([shutil.which("ccache")] if shutil.which("ccache") else []) + [cxx]
    env_cc = os.environ.setdefault("CCACHE_DIR", os.path.join(BUILD, "ccache"))
    os.makedirs(env_cc, exist_ok=True)
    os.environ.setdefault("CCACHE_MAXSIZE", "1G")
    objs = []

    def one(s):
        o = os.path.join(out, s.replace("/", "_").rsplit(".", 1)[0] + ".o")
        src = s if os.path.isabs(s) else os.path.join(REPO, s)
        _run(cxx + cflags + ["-I" + os.path.join(REPO, "src"),
                             "-I" + os.path.join(REPO, "src/SAPPOROBDD"),
                             "-c", src, "-o", o], REPO)
        return o
    with ThreadPoolExecutor(jobs or os.cpu_count()) as pool:
        # the slowest translation units first
        order = sorted(srcs, key=lambda s: -os.path.getsize(s if os.path.isabs(s) else os.path.join(REPO, s)))
        objs = list(pool.map(one, order))
    return objs


def build(variant="ext"):
    """Returns a directory to put on PYTHONPATH."""
    flags = list(BASE)
    link = ["-fopenmp"]
    if variant == "ext":
        flags += ["-O2", "-fopenmp"]
    elif variant == "asan":
        san = ["-fsanitize=address,bounds,null,vptr,return,unreachable,object-size", "-fno-sanitize-recover=all"]
        flags += ["-O1", "-g1", "-fopenmp", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
                  "-DGRAPHILLION_VERIF_HOOKS"] + san
        link += san + ["-Wl,--wrap=_Z8BDD_Inityy"]
    elif variant == "hooks":
        # BDD_Init is wrapped so that the node table's initial and maximal size
        # come from the environment: table growth failing is then a controlled event
        flags += ["-O2", "-fopenmp", "-DGRAPHILLION_VERIF_HOOKS"]
        link += ["-Wl,--wrap=_Z8BDD_Inityy"]
    elif variant == "omp":
        # OpenMP comes from native/ompshim.cc: schedules are decided by the driver
        flags += ["-O1", "-g1", "-fopenmp", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset",
                  "-DGRAPHILLION_VERIF_HOOKS"]
        link += ["-ldl"]
    else:
        raise ValueError(variant)
    incl = sysconfig.get_paths()["include"]
    flags += ["-I" + incl]
    extra_src = []
    if variant in ("hooks", "asan"):
        extra_src = [os.path.join(VERIF, "native", "initwrap.cc")]
    shim = os.path.join(VERIF, "native", "ompshim.cc")
    key = tree_hash((open(shim).read() if variant == "omp" else "") + variant + repr(flags) + repr(link) +
                    "".join(open(s).read() for s in extra_src))
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, variant + "-" + key)
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, ".done")):
            return out
        for old in os.listdir(BUILD):          # keep at most a few old trees
            if old.startswith(variant + "-") and old != os.path.basename(out):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        obj = os.path.join(out, "obj")
        os.makedirs(obj)
        objs = compile_objs(obj, sources() + extra_src, flags)
        if variant == "omp":   # library calls of the code under test, not the shim's own
            for o in objs:
                _run(["objcopy"] + ["--redefine-sym=%s=__wrap_%s" % (f, f) for f in
                     "memcpy memmove memset free _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm".split()] + [o], REPO)
            objs += compile_objs(obj, [shim], BASE + ["-O2", "-fno-builtin"])
        so = "_graphillion" + (sysconfig.get_config_var("EXT_SUFFIX") or ".so")
        _run(["g++", "-shared", "-Wl,-Bsymbolic-functions"] + objs +
             ["-o", os.path.join(out, so)] + link, REPO)
        shutil.rmtree(obj)
        shutil.copytree(os.path.join(REPO, "graphillion"), os.path.join(out, "graphillion"),
                        ignore=shutil.ignore_patterns("test", "__pycache__"))
        open(os.path.join(out, ".done"), "w").close()
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["ext"]:
        print(build(v))
