#!/opt/vp/venv/bin/python
"""usage: run.py C01 [quick|thorough]   or   run.py C01 --replay FILE | --unit NAME [tier]"""
import importlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/vp/venv/bin/python"


def asan_env(prop):
    """a check of the sanitized build runs with the sanitizer's runtime loaded first"""
    import subprocess
    src = [open(os.path.join(HERE, f)).read() for f in os.listdir(HERE) if f.lower().startswith(prop.lower() + "_") and f.endswith(".py")]
    if not any(l.startswith('VARIANT = "asan"') for t in src for l in t.splitlines()):
        return {}
    # libstdc++ as well: exceptions are intercepted only if it is there from the start
    libs = [os.path.realpath(subprocess.run(["gcc", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip())
            for l in ("libasan.so", "libstdc++.so.6")]
    return {"LD_PRELOAD": " ".join(libs), "PYTHONMALLOC": "malloc",
            "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1:hard_rss_limit_mb=6000:exitcode=86:max_malloc_fill_size=4096:malloc_fill_byte=190",
            "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86"}


def main():
    if os.environ.get("VRUN_STAGE") != "2":
        # fixed hashing, one OpenMP thread unless a unit says otherwise, no bytecode in /repo
        e = dict(os.environ, VRUN_STAGE="2", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                 PYTHONDONTWRITEBYTECODE="1", OMP_WAIT_POLICY="passive", MPLBACKEND="Agg")
        e.pop("PYTHONPATH", None)
        e.update(asan_env(sys.argv[1]))
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    sys.path.insert(0, HERE)
    import vbuild, vrun
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    args = sys.argv[2:]
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    if args and args[0] == "--replay":
        rec = json.load(open(args[1]))
        tier, only = rec["tier"], rec["unit"]
    elif args and args[0] == "--unit":
        only = args[1]
    mod_name = [f[:-3] for f in os.listdir(HERE) if f.lower().startswith(prop.lower() + "_")
                and f.endswith(".py")][0]
    t0 = time.time()
    variant = "ext"
    src = open(os.path.join(HERE, mod_name + ".py")).read()
    for line in src.splitlines():
        if line.startswith("VARIANT"):
            variant = eval(line.split("=", 1)[1])
    try:
        path = vbuild.build(variant)
    except vbuild.BuildError as e:
        print("build of /repo failed:\n%s" % e)
        return 2
    sys.path.insert(0, path)
    os.environ["VERIF_EXT"] = path
    if variant == "asan":
        pass
    mod = importlib.import_module(mod_name)
    mod._build_s = time.time() - t0
    return vrun.run_check(mod, tier, only)


if __name__ == "__main__":
    sys.exit(main())
