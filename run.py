#!/usr/bin/env python3
"""usage: run.py build | run.py <property> <quick|thorough>

Builds the harness against the libIGES working tree (default /repo, VERIF_REPO overrides it) and runs
one property.  Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import fcntl, glob, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def sh(cmd, log):
    with open(log, "ab") as f:
        return subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT)


def build():
    bdir = BUILD
    os.makedirs(bdir, exist_ok=True)
    log = os.path.join(bdir, "build.log")
    with open(os.path.join(bdir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(log, "w").close()
        cmd = ["cmake", "-S", os.path.join(HERE, "harness"), "-B", bdir, "-G", "Ninja",
               "-DCMAKE_BUILD_TYPE=None", "-DREPO=" + REPO,
               "-DCMAKE_CXX_COMPILER=clang++", "-DCMAKE_C_COMPILER=clang"]
        for attempt in (0, 1):
            if sh(cmd, log) == 0 and sh(["ninja", "-C", bdir, "-j", str(JOBS)], log) == 0:
                return bdir
            if attempt == 0:    # e.g. a cache copied from a different place
                try:
                    os.remove(os.path.join(bdir, "CMakeCache.txt"))
                except OSError:
                    pass
    sys.stderr.write(open(log, errors="replace").read()[-6000:])
    sys.stderr.write("\nrun.py: the harness does not build\n")
    sys.exit(2)


def locales():
    """real locales which group digits and use a decimal comma (the sandbox has none installed)"""
    d = os.path.join(BUILD, "locale")
    os.makedirs(d, exist_ok=True)
    for n in ("de_DE", "fr_FR"):
        t = os.path.join(d, n + ".UTF-8")
        if not os.path.isdir(t):
            tmp = t + ".%d" % os.getpid()
            try:
                subprocess.call(["localedef", "-i", n, "-f", "UTF-8", tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.isdir(tmp):
                    os.rename(tmp, t)
            except OSError:
                pass
    return d


def env():
    e = dict(os.environ)
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                         "max_allocation_size_mb=256:detect_stack_use_after_return=0:"
                         "quarantine_size_mb=16:malloc_context_size=12:handle_abort=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    e["VERIF_REPO"] = REPO
    e["VERIF_HERE"] = HERE
    return e


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        build()
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    extra = sys.argv[3:]
    seed = os.environ.get("VERIF_SEED", "1")
    seed = seed if seed.isdigit() else "1"
    build()
    loc = locales() if prop == "C08" else None
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmax = "400" if tier == "quick" else os.environ.get("VERIF_MAX", "840")
    cmd = [os.path.join(BUILD, "pbt"), prop, "--tier", tier, "--seed", seed, "--jobs", str(JOBS),
           "--max-time", tmax, "--evidence", os.path.join(HERE, "evidence", prop + ".json"),
           "--replay-dir", os.path.join(HERE, "replay")] + extra
    e = env()
    if loc:
        e["LOCPATH"] = loc
    r = subprocess.call(cmd, env=e, cwd=HERE)
    return r


if __name__ == "__main__":
    sys.exit(main())
