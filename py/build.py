"""Builds /repo's working tree in sanitizer variants and links the harnesses.

Everything goes to /verif/.build/<variant>; /repo itself is never written to.
The repository's own CMake files drive the compilation of its sources, so the
machinery follows the code wherever it moves."""
import fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

WRAP = ("open open64 close read write ioctl fcntl select isatty tcdrain tcflush "
        "clock_gettime gettimeofday time clock_nanosleep nanosleep usleep sleep "
        "timer_create timer_settime timer_delete malloc calloc realloc free strdup "
        "opendir readdir readdir64 closedir getc fgetc getchar fgets").split()
WRAPF = "-Wl," + ",".join("--wrap=" + w for w in WRAP)

SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all"
VARIANTS = {
    "asan": dict(flags="-w -g -O1 -U_FORTIFY_SOURCE -fno-omit-frame-pointer " + SAN, ld=SAN),
    "plain": dict(flags="-w -g -O1 -U_FORTIFY_SOURCE -fno-omit-frame-pointer", ld=""),
    # run under valgrind's memcheck
    "memcheck": dict(flags="-w -g -O0 -U_FORTIFY_SOURCE -fno-omit-frame-pointer", ld=""),
    "tsan": dict(flags="-w -g -O1 -U_FORTIFY_SOURCE -fno-omit-frame-pointer -fsanitize=thread", ld="-fsanitize=thread"),
}


class BuildError(Exception):
    pass


def _run(cmd, log, env=None):
    with open(log, "ab") as f:
        f.write(("\n$ %s\n" % " ".join(cmd)).encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env)
    if r.returncode:
        tail = open(log, errors="replace").read()[-4000:]
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd[:6]), tail))


def _env():
    e = dict(os.environ)
    e.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++", LC_ALL="C.UTF-8")
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CMAKE_BUILD_TYPE", "CMAKE_GENERATOR"):
        e.pop(k, None)
    return e


def repo_variant(variant):
    """Build the repository's libraries and programs; returns the build dir."""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    log = os.path.join(d, "build.log")
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(log) and os.path.getsize(log) > 4000000:
            os.unlink(log)
        if not os.path.exists(os.path.join(d, "repo", "build.ninja")):
            _run(["cmake", "-S", REPO, "-B", os.path.join(d, "repo"), "-G", "Ninja",
                  "-DCMAKE_BUILD_TYPE=None", "-DBUILD_DIAGTEST=ON",
                  "-DCMAKE_C_FLAGS=" + v["flags"]], log, _env())
        _run(["ninja", "-C", os.path.join(d, "repo")], log, _env())
    return d


def harness(variant, name, srcs, app=False, wrap=True, core=("h", "vt", "fakel0"), ldextra=(), defs=()):
    """Link harness sources (C++ in /verif/h) with core and the repo libraries.
    app=True additionally links the scantool objects (everything but main)."""
    v = VARIANTS[variant]
    d = repo_variant(variant)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rb = os.path.join(d, "repo")
        obj = os.path.join(d, "hobj")
        os.makedirs(obj, exist_ok=True)
        inc = "-I%s/core -I%s/scantool -I%s -I%s/h" % (VERIF, REPO, rb, VERIF)
        nj = os.path.join(obj, name + ".ninja")
        allsrc = [os.path.join(VERIF, "core", c + ".cc") for c in core] + [os.path.join(VERIF, "h", s) for s in srcs]
        lines = ["builddir = %s/.nj-%s" % (obj, name),
                 "rule cxx", "  command = g++ -std=gnu++17 %s %s %s -DHARNESS=1 -MMD -MF $out.d -c $in -o $out" % (v["flags"], inc, " ".join(defs)),
                 "  depfile = $out.d", "  deps = gcc",
                 "rule link", "  command = g++ $in -o $out $libs",
                 "rule ren", "  command = objcopy --redefine-sym main=app_main $in $out"]
        objs = []
        for s in allsrc:
            o = os.path.join(obj, os.path.basename(s) + (("." + hashlib.md5(" ".join(defs).encode()).hexdigest()[:6]) if defs else "") + ".o")
            lines.append("build %s: cxx %s" % (o, s))
            objs.append(o)
        libs = []
        if app:
            os.makedirs(os.path.join(d, "aobj"), exist_ok=True)
            for o in sorted(glob.glob(os.path.join(rb, "scantool/CMakeFiles/freediag.dir/**/*.o"), recursive=True)):
                ro = os.path.join(d, "aobj", os.path.relpath(o, rb).replace("/", "_"))
                if "build %s: ren %s" % (ro, o) not in lines:
                    lines.append("build %s: ren %s" % (ro, o))
                objs.append(ro)
        libs = [os.path.join(rb, "scantool", l) for l in ("libdyno.a", "libfreediagcli.a", "libcli.a", "libdiag.a")]
        rl = ["-lreadline"] if "#define HAVE_LIBREADLINE" in open(os.path.join(rb, "cconf.h")).read() else []
        out = os.path.join(d, name)
        ld = " ".join(["-Wl,--start-group"] + libs + ["-Wl,--end-group"] + rl +
                      [v["ld"], WRAPF if wrap else "", "-lm -lpthread -lrt"] + list(ldextra))
        lines.append("build %s: link %s | %s" % (out, " ".join(objs), " ".join(libs)))
        lines.append("  libs = " + ld)
        lines.append("default " + out)
        txt = "\n".join(lines) + "\n"
        if not os.path.exists(nj) or open(nj).read() != txt:
            open(nj, "w").write(txt)
        _run(["ninja", "-f", nj], os.path.join(d, "build.log"), _env())
    return out


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(repo_variant(v))
