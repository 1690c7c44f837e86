"""Builds meevax from /repo's current working tree, outside /repo.

flavours: rel   -O2 -DNDEBUG                       (as shipped, minus LTO)
          gcs   -O2 -DNDEBUG -DMEEVAX_VERIFICATION (collection schedules, the allocator as shipped)
          hook  -O2 -DNDEBUG -DMEEVAX_VERIFICATION + ASan (collection schedules, memory errors fatal)
Object files are cached by content through ccache when it exists; a cold build
takes about half a minute on 8 cores.
"""
import concurrent.futures, fcntl, glob, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MEEVAX_REPO", "/repo")
BUILD = os.environ.get("MEEVAX_BUILD", os.path.join(VERIF, "build"))

FLAVOURS = {
    "rel": ["-O2", "-DNDEBUG"],
    "gcs": ["-O2", "-DNDEBUG", "-DMEEVAX_VERIFICATION"],
    "hook": ["-O2", "-g1", "-DNDEBUG", "-DMEEVAX_VERIFICATION", "-fsanitize=address", "-fno-omit-frame-pointer"],
}

class BuildError(Exception):
    pass

def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def _write_if_changed(src, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    new = open(src, "rb").read()
    if os.path.exists(dst) and open(dst, "rb").read() == new:
        return
    tmp = dst + ".tmp%d" % os.getpid()
    open(tmp, "wb").write(new)
    os.replace(tmp, dst)

def _env():
    e = dict(os.environ)
    e["LC_ALL"] = "C.UTF-8"
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_NOHASHDIR"] = "1"
    return e

def build(flavour="rel", harnesses=(), shell=False):
    """Returns {"lib": dir, "<harness>": path, "shell": path}; harnesses are names in harness/*.cpp."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        gen = os.path.join(BUILD, "gen")
        tmp = os.path.join(BUILD, "gen.tmp")
        shutil.rmtree(tmp, ignore_errors=True)
        _run(["cmake", "-DR=" + REPO, "-DO=" + tmp, "-P", os.path.join(VERIF, "lib", "gen.cmake")], env=_env())
        for root, _, files in os.walk(tmp):
            for f in files:
                p = os.path.join(root, f)
                _write_if_changed(p, os.path.join(gen, os.path.relpath(p, tmp)))
        shutil.rmtree(tmp, ignore_errors=True)
        out = os.path.join(BUILD, flavour)
        os.makedirs(out, exist_ok=True)
        flags = ["-std=c++20", "-fPIC", "-pipe", "-w"] + FLAVOURS[flavour] + [
            "-I" + os.path.join(gen, "include"), "-I" + os.path.join(REPO, "include")]
        cc = (["ccache"] if shutil.which("ccache") else []) + ["g++"]
        jobs = []
        srcs = sorted(glob.glob(REPO + "/src/*/*.cpp") + glob.glob(REPO + "/src/*/*/*.cpp"))
        srcs = [s for s in srcs if not s.endswith("/src/kernel/system.cpp")] + [os.path.join(gen, "system.cpp")]
        objs = []
        for s in srcs:
            o = os.path.join(out, s.strip("/").replace("/", "_") + ".o")
            objs.append(o)
            jobs.append((s, o))
        hobjs = {}
        for h in harnesses:
            s = os.path.join(VERIF, "harness", h + ".cpp")
            o = os.path.join(out, "harness_" + h + ".o")
            hobjs[h] = o
            jobs.append((s, o))
        if shell:
            o = os.path.join(out, "main.o")
            jobs.append((REPO + "/src/main.cpp", o))
        # big ones first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**6 if "boot" in j[0] or "number" in j[0] or "harness" in j[0] else 0))
        env = _env()
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            list(ex.map(lambda j: _run(cc + flags + ["-c", j[0], "-o", j[1]], env=env), jobs))
        lib = os.path.join(out, "libmeevax.so")
        san = [f for f in FLAVOURS[flavour] if f.startswith("-fsanitize")]
        _run(["g++", "-shared"] + san + ["-o", lib] + objs + ["-lgmp", "-ldl"])
        res = {"lib": out, "wall_s": 0.0, "sources": len(srcs)}
        for h, o in hobjs.items():
            exe = os.path.join(out, h)
            _run(["g++"] + san + ["-o", exe, o, lib, "-Wl,-rpath," + out, "-lgmp", "-ldl", "-pthread"])
            res[h] = exe
        if shell:
            exe = os.path.join(out, "meevax")
            _run(["g++"] + san + ["-o", exe, os.path.join(out, "main.o"), lib, "-Wl,-rpath," + out, "-lgmp", "-ldl"])
            res["shell"] = exe
        res["wall_s"] = round(time.time() - t0, 1)
        return res
    finally:
        lock.close()

if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "rel", sys.argv[2:], shell=True))
