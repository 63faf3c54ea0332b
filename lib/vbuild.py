"""Content-addressed out-of-tree builds of /repo/src and of the harnesses in /verif/harness.

Every object is keyed by the hash of its own text, of every header below /repo/src (or of the
harness headers), and of its command line, so a check always links what /repo contains *now*,
whatever the time stamps say.  Nothing is written outside /verif/build.
"""
import glob, hashlib, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
OUT = os.path.join(VERIF, "build")
CXX, CC = "/usr/bin/clang++", "/usr/bin/clang"

SAN = {
    # behavioural monitors run under ASan+UBSan(+LSan where asked for)
    "asan": "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=function,vptr,shift-base "
            "-fno-sanitize-recover=undefined",
    "tsan": "-O1 -g -fno-omit-frame-pointer -fsanitize=thread",
    # statistics-heavy monitors
    "opt": "-O2 -g1 -fno-fast-math",
    "msan": "-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins",
}


def _release_flags():
    """what CMakeLists.txt compiles the Release configuration with (link time optimisation left out)"""
    fl = "-Ofast"
    try:
        m = re.findall(r'SET\(CMAKE_C_FLAGS_RELEASE\s+"(-[^"]*)"', open(os.path.join(SRC, "..", "CMakeLists.txt")).read())
        if m:
            fl = m[-1]
    except OSError:
        pass
    return " ".join(x for x in fl.split() if x != "-flto") + " -g1"


SAN["fast"] = _release_flags()
COMMON = ("-pipe -fexceptions -w -I%s -include cstdint -DSUPPRESS_MOTD=1 -DSPECTRE_MONITOR=1 "
          "-DCOMPILER_NAME=\\\"clang\\\" -DCOMPILER_VERSION=\\\"18\\\"" % SRC)
DEFS = {
    "rgb": "", "spectral": "-DSPECTRAL=1",
}
LIBS = "-ljpeg -lpng -ltiff -lz -lpthread"


def _sources():
    out = []
    for pat in ("lights", "geometry", "primitives", "accelerators", "samplers", "utility", "cameras",
                "integrators", "textures", "materials"):
        out += glob.glob(SRC + "/%s/*.cpp" % pat)
    out += [SRC + "/renderer.cpp"]
    for f in ("config_parser.tab.cc", "lex.yy.cc", "config_driver.cpp", "parser_obj.cpp"):
        out.append(SRC + "/parsers/" + f)
    out += glob.glob(SRC + "/parsers/*.cpp")
    out += glob.glob(SRC + "/utility/imageio/*.c")
    return sorted(set(out))


def _hash_headers(root, exts):
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def _run(cmd):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("BUILD FAILED: %s\n%s" % (cmd, r.stdout[-4000:]))


def _compile(job):
    src, cmd, key = job
    obj = os.path.join(OUT, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        _run("%s -c %s -o %s" % (cmd, src, tmp))
        os.replace(tmp, obj)
    return obj


def _flags(variant):
    """variant: e.g. 'asan-rgb', 'tsan-rgb', 'opt-spectral', 'asan-rgb-tests'"""
    parts = variant.split("-")
    fl = SAN[parts[0]] + " " + COMMON + " " + DEFS[parts[1]]
    for p in parts[2:]:
        if p == "tests":
            fl += " -DTESTS"
        elif p == "debug":
            fl += " -DDEBUG"
        elif p == "opendriver":   # only opens ConfigDriver's members, see lib_opendriver note in DESIGN.md
            pass
        elif p == "float":
            fl += " -fsanitize=float-cast-overflow -fno-sanitize-recover=float-cast-overflow"
        else:
            raise ValueError(p)
    return fl


def compilers(variant):
    """the Release configuration is compiled with the compiler cmake picks, the rest with clang"""
    return ("/usr/bin/gcc", "/usr/bin/g++") if variant.startswith("fast") else (CC, CXX)


def _hash(*a):
    h = hashlib.sha256()
    for x in a:
        h.update(x if isinstance(x, bytes) else x.encode())
        h.update(b"\0")
    return h.hexdigest()[:40]


def lib_objects(variant, pool):
    fl = _flags(variant)
    CC, CXX = compilers(variant)
    hh = _hash_headers(SRC, (".hpp", ".h", ".hh"))
    jobs = []
    for s in _sources():
        isc = s.endswith(".c")
        extra = ""
        b = os.path.basename(s)
        if b == "imageio.c":
            extra = " -DJPEG_FOUND -DPNG_FOUND -DTIFF_FOUND"
        if b == "console.cpp":
            extra = " -DSPECTRE_COLOURED_OUTPUT"
        cmd = (CC + " -std=gnu90 " + fl.replace("-include cstdint", "").replace("-fexceptions", "") if isc
               else CXX + " -std=c++11 " + fl) + extra
        jobs.append((s, cmd, _hash(open(s, "rb").read(), hh, cmd)))
    return list(pool.map(_compile, jobs))


def build(harness, variant, libs=""):
    """Builds /verif/harness/<harness>.cpp against /repo's current sources; returns the executable."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    with ThreadPoolExecutor(8) as pool:
        hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
        fl = _flags(variant)
        CC, CXX = compilers(variant)
        # the monitors themselves are never compiled with -Ofast
        hcmd = CXX + " -std=c++17 -I" + os.path.join(VERIF, "harness") + " " + (
            fl.replace(SAN["fast"], "-O2 -g1 -fno-fast-math") + " -DVT_SLACK=5" if variant.startswith("fast") else fl)
        # C++17 is wanted by harness code only; the library objects keep the project's C++11
        hkey = _hash(open(hsrc, "rb").read(), _hash_headers(SRC, (".hpp", ".h", ".hh")),
                     _hash_headers(os.path.join(VERIF, "harness"), (".hpp",)), hcmd)
        fut = pool.submit(_compile, (hsrc, hcmd, hkey))
        objs = lib_objects(variant, pool)
        hobj = fut.result()
    exe = os.path.join(OUT, "bin", "%s.%s.%s" % (harness, variant, _hash(hobj, *objs)[:16]))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        _run("%s %s %s %s -o %s %s %s" % (CXX, fl, " ".join(objs) if variant.startswith("fast") else hobj,
                                        hobj if variant.startswith("fast") else " ".join(objs), tmp, LIBS, libs))
        os.replace(tmp, exe)
    return exe


def build_main(variant):
    """Builds the spectre executable itself (main.cpp)."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    with ThreadPoolExecutor(8) as pool:
        s = SRC + "/main.cpp"
        CC, CXX = compilers(variant)
        cmd = CXX + " -std=c++11 " + _flags(variant)
        key = _hash(open(s, "rb").read(), _hash_headers(SRC, (".hpp", ".h", ".hh")), cmd)
        fut = pool.submit(_compile, (s, cmd, key))
        objs = lib_objects(variant, pool)
        objs.append(fut.result())
    CC, CXX = compilers(variant)
    exe = os.path.join(OUT, "bin", "spectre.%s.%s" % (variant, _hash(*objs)[:16]))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        _run("%s %s %s -o %s %s" % (CXX, _flags(variant), " ".join(objs), tmp, LIBS))
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    with ThreadPoolExecutor(8) as pool:
        os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
        for v in sys.argv[1:]:
            lib_objects(v, pool)
            print("built", v)
