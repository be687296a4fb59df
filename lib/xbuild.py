"""Builds the sources of /repo (working tree) into object files, per variant.

Nothing is written in /repo.  Objects are cached in /verif/.build, keyed by the
content of the source, of every header of the repository and of the flags, so a
change of /repo is always seen.
"""
import os, re, sys, hashlib, subprocess, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XRTM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
os.environ["OPENBLAS_NUM_THREADS"] = "1"
os.environ["OMP_NUM_THREADS"] = "1"

DEFS = ['-DVERSION="0.93"', "-DGBYTE_ORDER=BYTE_ORDER_LE", "-DNATIVE_SIZE=NATIVE_SIZE_64_BIT",
        "-DUNIX", "-DPLATFORM=LINUX_GCC"]
BASE = ["-fPIC", "-w", "-fno-strict-aliasing", "-fopenmp"]
FFLAGS = ["-fPIC", "-w", "-fno-second-underscore"]
VARIANTS = {
    "opt":  dict(c=["-O2"], ld=[]),
    "asan": dict(c=["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], ld=["-fsanitize=address"]),
    # work arrays are filled each time they are taken
    "poison": dict(c=["-O2", "-DPOISON_WORK_ARRAYS"], ld=[]),
}


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stdout.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-4000:]))
        raise SystemExit(3)
    return r.stdout


def _hash(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def header_hash():
    if "h" not in _hdr:
        fs = []
        for d in ("src", "misc", "utils", "interfaces", "src2"):
            for e in ("*.h", "prototypes/*.h", "*.inc", "*_x.c", "*.def"):
                fs += glob.glob(os.path.join(REPO, d, e))
        # some .c files are #included by others
        _hdr["h"] = _hash(*[f.encode() + _read(f) for f in sorted(fs)])
        inc = set()
        for d in ("src", "misc", "utils", "interfaces"):
            for f in glob.glob(os.path.join(REPO, d, "*.c")):
                for m in re.findall(rb'#\s*include\s+"([^"]+\.c)"', _read(f)):
                    p = os.path.normpath(os.path.join(REPO, d, m.decode()))
                    if os.path.exists(p):
                        inc.add(p)
        _hdr["h"] = _hash(_hdr["h"], *[_read(p) for p in sorted(inc)])
    return _hdr["h"]


def objects_of(d, var="OBJECTS"):
    """The sources behind VAR in the Makefile of directory d (in /repo)."""
    t = open(os.path.join(REPO, d, "Makefile")).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % var, t, re.M)
    out = []
    for o in re.findall(r"(\w+)\.o", m.group(1)):
        out.append(o)
    return out


def compile_one(src, variant, extra=(), incs=(), cc="gcc", key=""):
    v = VARIANTS[variant]
    ext = os.path.splitext(src)[1]
    if ext in (".f", ".f90"):
        cmd = ["gfortran"] + FFLAGS + (["-ffixed-line-length-none"] if ext == ".f" else ["-ffree-line-length-0"])
        cmd += [f for f in v["c"] if not f.startswith("-fsanitize") or f == "-fsanitize=thread"]
    elif ext == ".cpp":
        cmd = ["g++"] + BASE + v["c"] + DEFS
    else:
        cmd = [cc] + BASE + v["c"] + DEFS
    cmd += list(extra)
    cmd += ["-I" + os.path.join(REPO, x) for x in ("src", "interfaces", "misc", "utils")]
    cmd += ["-I" + i for i in incs]
    h = _hash(_read(src), header_hash(), " ".join(cmd), os.path.basename(src), os.path.dirname(os.path.abspath(src)), key)
    od = os.path.join(BUILD, "obj")
    os.makedirs(od, exist_ok=True)
    o = os.path.join(od, "%s-%s.o" % (os.path.basename(src), h))
    if not os.path.exists(o):
        tmp = o + ".%d.tmp.o" % os.getpid()
        sh(cmd + ["-c", "-o", tmp, src])
        os.replace(tmp, o)
    return o


def find(d, stem):
    for e in (".c", ".f", ".cpp", ".f90"):
        p = os.path.join(REPO, d, stem + e)
        if os.path.exists(p):
            return p
    return None


def version_c():
    p = os.path.join(BUILD, "version.c")
    os.makedirs(BUILD, exist_ok=True)
    t = 'const char *build_date = "build date";\nconst char *build_sha_1 = "0000000000000000000000000000000000000000";\n'
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)
    return p


def core(variant, dirs=("src", "misc"), only=None):
    """Object files of the library (src + misc)."""
    jobs = []
    for d in dirs:
        for stem in objects_of(d):
            if stem == "version":
                jobs.append(version_c())
                continue
            p = find(d, stem)
            if p:
                jobs.append(p)
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        return list(ex.map(lambda s: compile_one(s, variant), jobs))


def flex_dir():
    """input_yylex.[ch] as /opt/vp/build.sh makes them."""
    u = os.path.join(REPO, "utils")
    c, h = os.path.join(u, "input_yylex.c"), os.path.join(u, "input_yylex.h")
    ok = (os.path.exists(c) and os.path.exists(h) and
          hashlib.sha256(_read(c)).hexdigest().startswith("f1c5a5684c8d") and
          hashlib.sha256(_read(h)).hexdigest().startswith("28d63a5c2886"))
    if not ok and os.path.exists(c) and os.path.exists(h):
        return u
    l = os.path.join(u, "input_yylex.l")
    d = os.path.join(BUILD, "flex-" + _hash(_read(l))[:12])
    if not os.path.exists(os.path.join(d, "done")):
        os.makedirs(d, exist_ok=True)
        shutil.copy(l, d)
        sh(["flex", "--header-file=input_yylex.h", "-oinput_yylex.c", "input_yylex.l"], cwd=d)
        open(os.path.join(d, "done"), "w").write("1")
    return d


def link(out, objs, variant, extra=()):
    v = VARIANTS[variant]
    exe = os.path.join(BUILD, "bin", out)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + ".%d.tmp" % os.getpid()
    sh(["gfortran", "-fopenmp"] + v["ld"] + ["-o", tmp] + list(objs) + list(extra) +
       ["-lopenblas", "-lpthread", "-lm"])
    os.replace(tmp, exe)
    return exe


def program(name, sources, variant="opt", extra_c=(), extra_ld=(), more=()):
    """Builds harness sources (paths relative to /verif/harness) + core -> executable."""
    hd = os.path.join(VERIF, "harness")
    hh = _hash(*[_read(f) for f in sorted(glob.glob(os.path.join(hd, "*.h")))])
    objs = core(variant)
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        hobjs = list(ex.map(lambda s: compile_one(os.path.join(hd, s), variant, list(extra_c) + ["-g"], [hd], key=hh), sources))
    return link("%s-%s" % (name, variant), hobjs + list(more) + objs, variant, extra_ld)


def program_shared(name, sources, variant="opt", extra_c=(), extra_ld=()):
    """The same with the core as a shared library, whose writable memory is then apart from the harness's."""
    hd = os.path.join(VERIF, "harness")
    hh = _hash(*[_read(f) for f in sorted(glob.glob(os.path.join(hd, "*.h")))])
    lib = link("libcore-%s-%s.so" % (name, variant), core(variant), variant, ["-shared", "-Wl,-Bsymbolic", "-Wl,-z,now"])
    hobjs = [compile_one(os.path.join(hd, s), variant, list(extra_c) + ["-g"], [hd], key=hh) for s in sources]
    return link("%s-%s" % (name, variant), hobjs + [lib, "-Wl,-rpath," + os.path.dirname(lib), "-rdynamic", "-ldl"], variant, extra_ld)


def program_utils(name, sources, variant="opt", extra_c=(), extra_ld=()):
    """With the reader and writer of input files; and callxrtm beside it, as <name>-<variant>.callxrtm."""
    hd = os.path.join(VERIF, "harness")
    fd = flex_dir()
    hh = _hash(*[_read(f) for f in sorted(glob.glob(os.path.join(hd, "*.h")))])
    u = os.path.join(REPO, "utils")
    incs = [fd, u]
    key = _hash(_read(os.path.join(fd, "input_yylex.h")))
    jobs = [(os.path.join(u, "input_util.c"), key), (os.path.join(fd, "input_yylex.c"), key), (os.path.join(u, "callxrtm.c"), key)]
    objs = core(variant)
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        o = list(ex.map(lambda j: compile_one(j[0], variant, [], incs, key=j[1]), jobs))
        hobjs = list(ex.map(lambda s: compile_one(os.path.join(hd, s), variant, list(extra_c) + ["-g"], [hd] + incs, key=hh), sources))
    link("%s-%s.callxrtm" % (name, variant), o + objs, variant)
    return link("%s-%s" % (name, variant), hobjs + o[:2] + objs, variant, extra_ld)


def program_bind(name, variant="asan"):
    """The bindings against a recording stand-in for the C interface (C23); the Python module as well,
    as <build>/py/xrtm.so."""
    import bindgen, json
    hd = os.path.join(VERIF, "harness")
    gen = os.path.join(BUILD, "bind")
    fns = bindgen.write(hd, gen)
    hh = _hash(*[_read(f) for f in sorted(glob.glob(os.path.join(hd, "*.h")))])
    it = os.path.join(REPO, "interfaces")
    mk = _hash(*[_read(os.path.join(it, f)) for f in ("xrtm_int_f90.f90", "xrtm_fd_int_f90.f90")])
    mod = os.path.join(BUILD, "mod", mk)
    os.makedirs(mod, exist_ok=True)
    objs = core(variant)
    # the modules first (anew if their .mod files are gone)
    for f in ("xrtm_int_f90", "xrtm_fd_int_f90"):
        o = compile_one(os.path.join(it, f + ".f90"), variant, ["-J" + mod, "-I" + mod], [], key=mk)
        if not os.path.exists(os.path.join(mod, f + ".mod")):
            os.remove(o)
            o = compile_one(os.path.join(it, f + ".f90"), variant, ["-J" + mod, "-I" + mod], [], key=mk)
        objs.append(o)
    jobs = [(os.path.join(it, f), [], []) for f in ("xrtm_int_cpp.cpp", "xrtm_fd_int_cpp.cpp", "xrtm_int_f77.f", "xrtm_fd_int_f77.f",
            "xrtm_int_f77_util.c", "xrtm_fd_int_f77_util.c", "xrtm_int_f90_util.c", "xrtm_fd_int_f90_util.c", "xrtm_int_jl_util.c")]
    jobs += [(os.path.join(gen, f), ["-I" + mod] if f[5] in "cf" else [], [hd]) for f in
             ("bind_stub.c", "bind_tab.c", "bind_cpp.cpp", "bind_f90.f90", "bind_const.f")]
    jobs += [(os.path.join(hd, f), ["-g"], [hd]) for f in ("bind.c", "bind_rec.c", "mc.c")]
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], variant, j[1], j[2], key=hh + mk), jobs)) + objs
    wrap = ["-Wl,--wrap=%s_%s" % (f["lib"], f["name"]) for f in fns]
    return link("%s-%s" % (name, variant), objs, variant,
                wrap + ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free")] + ["-lstdc++"])


def python_bind(name):
    """The Python module over the same stand-in; returns (module, table)."""
    import bindgen
    hd = os.path.join(VERIF, "harness")
    gen = os.path.join(BUILD, "bind")
    fns = bindgen.write(hd, gen)
    hh = _hash(*[_read(f) for f in sorted(glob.glob(os.path.join(hd, "*.h")))])
    objs = core("opt")
    inc = ["/usr/include/python3.12", "/usr/lib/python3/dist-packages/numpy/core/include"]
    jobs = [(os.path.join(REPO, "interfaces", "xrtm_int_py.c"), inc), (os.path.join(gen, "bind_stub.c"), [hd]), (os.path.join(hd, "bind_rec.c"), [hd])]
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], "opt", [], j[1], key=hh), jobs)) + objs
    wrap = ["-Wl,--wrap=%s_%s" % (f["lib"], f["name"]) for f in fns]
    so = link("%s-xrtm.so" % name, objs, "opt", ["-shared", "-Wl,-Bsymbolic"] + wrap + ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free")])
    return so, os.path.join(gen, "bind_spec.json")


if __name__ == "__main__":
    import time
    t = time.time()
    for v in sys.argv[1:] or ["opt"]:
        core(v)
        print(v, round(time.time() - t, 1), "s")
