"""Build half of the checker: /repo's current sources -> LLVM bitcode -> (a) instrumented symbolic
executable, (b) native AddressSanitizer twin.  Everything is cached by content under /verif/.cache."""
import concurrent.futures as cf, glob, hashlib, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KV_REPO", "/repo")
CACHE = os.environ.get("KV_CACHE", f"{V}/.cache")
ENG = f"{V}/engine"
CLANG, CLANGC, OPT, LINK, SPLIT, LLC = "clang++-18", "clang-18", "opt-18", "llvm-link-18", "llvm-split-18", "llc-18"
NC = os.cpu_count() or 8
LIBDIRS = ["base", "dom", "engine", "convenience", "regionator", "xsd"]
BCFLAGS = ["-O1", "-g0", "-fno-vectorize", "-fno-slp-vectorize", "-w", "-DNDEBUG", "-fPIC", "-fno-threadsafe-statics",
           "-D_FORTIFY_SOURCE=0", "-fno-stack-protector", "-ffp-contract=off"]
CXXF = ["-std=gnu++17", "-fno-rtti", "-D_GLIBCXX_ASSERTIONS", "-include", f"{ENG}/noextern.h"]


class BuildError(Exception):
    pass


def sha(*xs):
    h = hashlib.sha256()
    for x in xs:
        h.update(x if isinstance(x, bytes) else str(x).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


_fh = {}


def fhash(p):
    if p not in _fh:
        try:
            _fh[p] = hashlib.sha256(rd(p)).hexdigest()[:24]
        except OSError:
            _fh[p] = "absent"
    return _fh[p]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-6000:]))
    return r.stdout


def cached(key, name, make):
    """make(tmpfile) -> creates it; stored as CACHE/name.key"""
    os.makedirs(CACHE, exist_ok=True)
    out = f"{CACHE}/{key[:2]}/{key}.{name}"
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = f"{out}.tmp{os.getpid()}"
    make(tmp)
    os.replace(tmp, out)
    return out


def compile_bc(src, extra=()):
    """one translation unit to bitcode; the cache key covers every file it includes"""
    isc = src.endswith(".c")
    cmd = [CLANGC if isc else CLANG] + BCFLAGS + ([] if isc else CXXF) + [f"-I{REPO}/src", f"-I{ENG}", *extra, "-emit-llvm", "-c", src]
    ck = sha("tu", *cmd)
    meta = f"{CACHE}/tu/{ck}.json"
    if os.path.exists(meta):
        try:
            for ent in json.load(open(meta)):
                if all(fhash(p) == h for p, h in ent["deps"]) and os.path.exists(ent["bc"]):
                    return ent["bc"]
        except (ValueError, KeyError):
            pass
    os.makedirs(f"{CACHE}/tu", exist_ok=True)
    tmp = f"{CACHE}/tu/{ck}.{os.getpid()}.bc"
    run(cmd + ["-o", tmp, "-MMD", "-MF", tmp + ".d"])
    deps = rd(tmp + ".d").decode().replace("\\\n", " ").split(":", 1)[1].split()
    os.remove(tmp + ".d")
    bc = f"{CACHE}/tu/{fhash_raw(tmp)}.bc"
    os.replace(tmp, bc)
    ents = []
    if os.path.exists(meta):
        try:
            ents = json.load(open(meta))
        except ValueError:
            ents = []
    ents = [{"deps": [(p, fhash(p)) for p in deps], "bc": bc}] + ents[:7]
    t2 = f"{meta}.{os.getpid()}"
    json.dump(ents, open(t2, "w"))
    os.replace(t2, meta)
    return bc


def fhash_raw(p):
    return hashlib.sha256(rd(p)).hexdigest()[:24]


def par(fn, xs):
    with cf.ThreadPoolExecutor(NC) as ex:
        return list(ex.map(fn, xs))


def tools():
    p = {}

    def mk_pass():
        src = f"{ENG}/kvpass.cpp"
        k = sha(rd(src), rd(f"{ENG}/kvops.h"))
        fl = run(["llvm-config-18", "--cxxflags"]).decode().split()
        fl = [x for x in fl if not x.startswith("-std=")]
        p["pass"] = cached(k, "kvpass.so", lambda t: run([CLANG, "-O1", "-fPIC", "-shared", "-fno-rtti", "-std=c++17", "-w", *fl, src, "-o", t, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]))

    def mk_obj(n):
        def f():
            src = f"{ENG}/{n}.cpp"
            k = sha(rd(src), rd(f"{ENG}/kvops.h"), rd(f"{ENG}/kvshm.h"))
            p[n] = cached(k, n + ".o", lambda t: run(["g++", "-O2", "-std=c++17", "-w", "-fPIC", "-c", src, "-o", t]))
        return f
    with cf.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(x) for x in (mk_pass, mk_obj("kvrt"), mk_obj("kvexp"), mk_obj("kvnative"))]:
            f.result()
    return p


def lib_sources():
    s = []
    for d in LIBDIRS:
        s += [f for f in sorted(glob.glob(f"{REPO}/src/kml/{d}/*.cc")) if "win32" not in f and not f.endswith("_test.cc")]
    s += sorted(glob.glob(f"{REPO}/src/kml/base/contrib/minizip/*.c"))
    return s


def lib_bc():
    """all of libkml in one module"""
    srcs = lib_sources()
    bcs = par(compile_bc, srcs)
    k = sha("lib", *[fhash_raw(b) if "/tu/" not in b else os.path.basename(b) for b in bcs])
    return cached(k, "lib.bc", lambda t: run([LINK, "-o", t, *bcs])), srcs


KEEP = "__kv_run_harness_"


def build(prop, quiet=True):
    """-> dict(sym=exe, native=exe, sites=file, functions=...)"""
    T = tools()
    lib, srcs = lib_bc()
    hs = [f"{V}/harness/{prop}.cc", f"{ENG}/harness_main.cc"]
    ms = [f"{ENG}/{m}" for m in sorted(os.listdir(ENG)) if m.startswith("models") and m.endswith(".cc")]
    flags = [f for l in open(hs[0]) if l.startswith("// @cxx ") for f in l.split()[2:]]
    hb = par(lambda h: compile_bc(h, (f"-I{V}/harness", *(flags if h == hs[0] else ()))), hs)
    mb = par(lambda m: compile_bc(m, ("-fno-builtin",)), ms)
    # native side: lib + harness, stripped
    k = sha("dce3", T["pass"], lib, *hb)
    lin = cached(k, "lin.bc", lambda t: run(["bash", "-c", f"set -e; {LINK} -o {t}.l {' '.join(hb)} {lib}; {OPT} -load-pass-plugin {T['pass']} -passes=kvids,internalize,globaldce -internalize-public-api-list={KEEP} {t}.l -o {t}; rm -f {t}.l"]))
    h = fhash_raw(lin)
    mk = sha("m", h, T["pass"], *mb)

    def link_sym(t):
        sites = t + ".sites"
        run(["bash", "-c", f"""set -e
{LINK} -o {t}.l {lin} {' '.join(mb)}
{OPT} -load-pass-plugin {T['pass']} -passes=kvids,kvmodels {t}.l -o {t}.m
{OPT} -passes=internalize,globaldce -internalize-public-api-list={KEEP} {t}.m -o {t}.d
KV_SITES={sites} {OPT} -load-pass-plugin {T['pass']} -passes=kvpass {t}.d -o {t}
rm -f {t}.l {t}.m {t}.d"""])
        os.replace(sites, f"{CACHE}/{mk}.sites")
    ins = cached(mk, "ins.bc", link_sym)
    asn = cached(sha("asan", h, T["pass"]), "asan.bc", lambda t: run([OPT, "-load-pass-plugin", T["pass"], "-passes=kvasanattr,asan", lin, "-o", t]))

    def objs(bc, tag):
        d = f"{CACHE}/{tag}.{os.path.basename(bc)}.d"
        if os.path.exists(d + "/ok"):
            return sorted(glob.glob(d + "/*.o"))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        run([SPLIT, "-j", str(NC), "-o", d + "/p", bc])
        parts = sorted(glob.glob(d + "/p[0-9]*"))
        par(lambda q: run([LLC, "-O1", "-relocation-model=pic", "-filetype=obj", q, "-o", q + ".o"]), parts)
        for q in parts:
            os.remove(q)
        open(d + "/ok", "w").close()
        return sorted(glob.glob(d + "/*.o"))
    so, no = objs(ins, "s"), objs(asn, "n")
    LIBS = ["-lexpat", "-luriparser", "-lminizip", "-lz"]
    sym = cached(sha(mk, T["kvrt"], T["kvexp"]), "sym", lambda t: run(["g++", "-o", t, *so, T["kvrt"], T["kvexp"], *LIBS, "-lz3", "-lpthread"]))
    nat = cached(sha(asn, T["kvnative"]), "native", lambda t: run([CLANG, "-fsanitize=address", "-o", t, *no, T["kvnative"], *LIBS]))
    return {"sym": sym, "native": nat, "sites": f"{CACHE}/{mk}.sites", "sources": srcs}


if __name__ == "__main__":
    import time
    t = time.time()
    b = build(sys.argv[1])
    print(b["sym"], b["native"], "%.1f s" % (time.time() - t))
