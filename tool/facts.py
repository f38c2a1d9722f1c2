"""Builds the extractor when needed, runs it over every translation unit of
/repo's current tree and loads the merged model."""
import os, sys, json, subprocess, hashlib, glob, time, concurrent.futures as cf, pickle, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TFX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

class AnalysisError(Exception):
    """The analysis itself cannot give an answer (exit code 3)."""

def tool():
    src = os.path.join(VERIF, "tool", "tfx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "tfx-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d.tmp" % os.getpid()
    lib = "/usr/lib/llvm-18/lib"
    cmd = ["clang++", "-O0", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
           lib + "/libclang-cpp.so.18.1", lib + "/libLLVM.so.18.1", "-Wl,-rpath," + lib]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe

def _pyinc():
    import sysconfig
    inc = []
    try:
        o = subprocess.run(["/usr/bin/python3", "-c",
            "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True).stdout.strip()
        if o: inc.append("-I" + o)
    except Exception: pass
    for p in glob.glob("/usr/lib/python3/dist-packages/pybind11/include"): inc.append("-I" + p)
    return inc

def units():
    lib = sorted(glob.glob(REPO + "/ThermoFun/**/*.cpp", recursive=True))
    py = sorted(glob.glob(REPO + "/python/src/thermofun/**/*.cpp", recursive=True))
    own = sorted(glob.glob(VERIF + "/tool/instantiate/*.cpp"))
    return lib, py, own

def _flags(kind):
    f = ["-std=gnu++20", "-DFMT_SHARED", "-DSPDLOG_FMT_EXTERNAL", "-I" + REPO, "-I" + REPO + "/ThermoFun",
         "-I" + VERIF + "/stubs", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w", "-UNDEBUG", "-ferror-limit=20"]
    if kind == "py":
        f += ["-I" + REPO + "/python", "-I" + REPO + "/python/src/thermofun"] + _pyinc()
    return f

def _key(files):
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, "tool", "tfx.cpp"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(REPO.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def sources():
    out = []
    for r in ("/ThermoFun", "/python/src"):
        for e in ("cpp", "h", "hpp", "cc", "cxx", "inl", "tpp"):
            out += glob.glob(REPO + r + "/**/*." + e, recursive=True)
    for d in ("/tool/instantiate", "/stubs"):
        out += [p for p in glob.glob(VERIF + d + "/**/*", recursive=True) if os.path.isfile(p)]
    return sorted(set(out))

def extract(verbose=False):
    """Returns the list of per-TU models, extracted from the current tree.
    Keyed by the content of every source and header: nothing stale is reused."""
    key = _key(sources())
    cdir = os.path.join(BUILD, "facts-" + key)
    pk = os.path.join(cdir, "facts.pickle")
    if os.path.exists(pk):
        try:
            return pickle.load(open(pk, "rb"))
        except Exception:
            pass
    exe = tool()
    os.makedirs(cdir, exist_ok=True)
    lib, py, own = units()
    jobs = [(s, "lib") for s in lib] + [(s, "py") for s in py] + [(s, "own") for s in own]
    def run(j):
        s, k = j
        out = os.path.join(cdir, "%d-" % os.getpid() + s.strip("/").replace("/", "_") + ".json")
        roots = ":".join([REPO + "/ThermoFun", REPO + "/python/src", VERIF + "/tool/instantiate"])
        r = subprocess.run([exe, out, s, roots, "--"] + _flags(k), capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            return s, None, r.stderr[-3000:]
        try:
            m = json.load(open(out))
        except Exception as e:
            return s, None, "bad model: %s" % e
        finally:
            if os.path.exists(out): os.unlink(out)
        return s, m, ""
    res, errs = [], []
    with cf.ThreadPoolExecutor(8) as ex:
        for s, m, e in ex.map(run, jobs):
            if m is None: errs.append((s, e))
            else: res.append(m)
    if errs:
        raise AnalysisError("cannot parse: " + "; ".join("%s: %s" % x for x in errs)[:1500])
    # keep only a few cached extractions
    for d in sorted(glob.glob(os.path.join(BUILD, "facts-*")), key=os.path.getmtime)[:-3]:
        if d != cdir and time.time() - os.path.getmtime(d) > 1800: shutil.rmtree(d, ignore_errors=True)   # not one that another run is filling
    tmp = pk + ".%d" % os.getpid()
    pickle.dump(res, open(tmp, "wb"), protocol=4); os.replace(tmp, pk)
    return res

if __name__ == "__main__":
    import time
    t = time.time(); r = extract(True)
    print(len(r), "TUs", round(time.time() - t, 1), "s")
