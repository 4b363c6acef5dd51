"""Compile /repo's current sources to LLVM IR, and the native replay harness."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.path.join(VERIF, ".cache")
CXXFLAGS = ["-std=c++17", "-O0", "-DNDEBUG", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names"]
CFLAGS = ["-std=gnu11", "-O0", "-DNDEBUG", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names"]
SIM = os.path.join(REPO, "simulator")


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stderr[-3000:])
    return p.stdout


def srchash(dirs, extra=()):
    h = hashlib.sha256()
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".c", ".cc", ".cpp", ".h", ".hpp", ".inc", ".def")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:24]


def cached(key, make):
    """make(tmpdir) fills a directory; returns its final path."""
    os.makedirs(CACHE, exist_ok=True)
    d = os.path.join(CACHE, key)
    if os.path.isdir(d):
        return d
    t = tempfile.mkdtemp(dir=CACHE, prefix="tmp-")
    try:
        make(t)
        try:
            os.rename(t, d)
        except OSError:
            if not os.path.isdir(d):
                raise
            shutil.rmtree(t, ignore_errors=True)
    except BaseException:
        shutil.rmtree(t, ignore_errors=True)
        raise
    # keep the cache small
    ents = sorted((os.path.getmtime(os.path.join(CACHE, e)), e) for e in os.listdir(CACHE) if not e.startswith("tmp-"))
    for _, e in ents[:-24]:
        shutil.rmtree(os.path.join(CACHE, e), ignore_errors=True)
    return d


def sim_sources():
    """The simulator's sources, main.cpp excepted (it is only the command line)."""
    return sorted(f for f in os.listdir(SIM) if f.endswith(".cpp") and f != "main.cpp")


def simulator_bc():
    key = "sim-" + srchash([SIM], (CXXFLAGS,))
    def make(t):
        def one(f):
            o = os.path.join(t, f[:-4] + ".bc")
            run(["clang++", *CXXFLAGS, "-c", "-emit-llvm", "-I" + SIM, os.path.join(SIM, f), "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, sim_sources()))
        link = shutil.which("llvm-link-18") or shutil.which("llvm-link") or "/usr/lib/llvm-18/bin/llvm-link"
        run([link, *objs, "-o", os.path.join(t, "all.bc")])
        for o in objs:
            os.unlink(o)
    return os.path.join(cached(key, make), "all.bc")


def c_bc(path, name, flags=()):
    """Bitcode of one C or C++ file."""
    key = name + "-" + srchash([os.path.dirname(path)], (path, flags, CFLAGS))
    def make(t):
        cc = ["clang++", *CXXFLAGS] if path.endswith((".cc", ".cpp")) else ["clang", *CFLAGS]
        run([*cc, *flags, "-c", "-emit-llvm", "-I" + os.path.dirname(path), path, "-o", os.path.join(t, "all.bc")])
    return os.path.join(cached(key, make), "all.bc")


def fplib():
    src = os.path.join(HERE, "native", "fplib.c")
    key = "fplib-" + srchash([os.path.dirname(src)], ("fplib",))
    def make(t):
        run(["gcc", "-O1", "-shared", "-fPIC", src, "-lm", "-o", os.path.join(t, "fplib.so")])
    return os.path.join(cached(key, make), "fplib.so")


def harness():
    """Native replay harness linked with the current simulator sources (built as the project builds them)."""
    hs = os.path.join(HERE, "native")
    key = "harness-" + srchash([SIM, hs], ("harness",))
    def make(t):
        flags = ["-std=c++17", "-O1", "-g0", "-w", "-DNDEBUG", "-fwrapv", "-fsanitize=address,bounds,integer-divide-by-zero,shift", "-fno-sanitize-recover=all",
                 "-D_GLIBCXX_ASSERTIONS", "-I" + SIM, "-Dprivate=public", "-include", os.path.join(hs, "std.h")]
        def one(f):
            o = os.path.join(t, os.path.basename(f)[:-4] + ".o")
            run(["g++", *flags, "-c", f, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, [os.path.join(SIM, f) for f in sim_sources()] + [os.path.join(hs, "harness.cpp")]))
        run(["g++", *objs, "-fsanitize=address,bounds,integer-divide-by-zero,shift", "-o", os.path.join(t, "harness"), "-lm", "-lstdc++fs"])
        for o in objs:
            os.unlink(o)
    return os.path.join(cached(key, make), "harness")


def offsets():
    hs = os.path.join(HERE, "native")
    key = "offs-" + srchash([SIM, hs], ("offs",))
    def make(t):
        run(["clang++", "-std=c++20", "-w", "-O0", "-I" + SIM, os.path.join(hs, "offsets.cpp"), "-o", os.path.join(t, "offs"),
             "-Wl,--unresolved-symbols=ignore-all"])
        out = run([os.path.join(t, "offs")])
        open(os.path.join(t, "offs.json"), "w").write(out)
    return json.load(open(os.path.join(cached(key, make), "offs.json")))
