"""Builds LLVM bitcode for every translation unit of the library from /repo's current working tree.

Nothing of /repo is executed: clang parses the sources, `opt` only inlines functions the sources mark always_inline
and promotes locals to SSA. The result is cached under /verif/.cache keyed by a hash of every source byte and flag.
"""
import glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")

BASE = ["-std=c++17", "-I" + REPO, "-DNDEBUG", "-DBL_BUILD_OPT_AVX512", "-DBL_BUILD_NO_JIT", "-DBL_BUILD_NO_STDCXX",
        "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-fno-math-errno", "-fPIC", "-fvisibility=hidden",
        "-w"]
FEATURE_FLAGS = {
    "sse3": ["-msse3"], "ssse3": ["-mssse3"], "sse4_1": ["-msse4.1"],
    "sse4_2": ["-mpopcnt", "-mpclmul", "-msse4.2"],
    "avx": ["-mpopcnt", "-mpclmul", "-mavx"],
    "avx2": ["-mpopcnt", "-mpclmul", "-mbmi", "-mbmi2", "-mavx2", "-DBL_TARGET_OPT_POPCNT", "-DBL_TARGET_OPT_BMI2"],
    "avx2fma": ["-mpopcnt", "-mpclmul", "-mbmi", "-mbmi2", "-mavx2", "-mfma", "-DBL_TARGET_OPT_POPCNT",
                "-DBL_TARGET_OPT_BMI2", "-DBL_TARGET_OPT_FMA"],
    "avx512": ["-mpopcnt", "-mpclmul", "-mbmi", "-mbmi2", "-mavx512f", "-mavx512bw", "-mavx512dq", "-mavx512cd",
               "-mavx512vl", "-DBL_TARGET_OPT_POPCNT", "-DBL_TARGET_OPT_BMI2"],
    "sse2": [], "asimd": [], "asimd_crypto": [],
}
EXT = "sse2|sse3|ssse3|sse4_1|sse4_2|avx|avx2|avx2fma|avx512|asimd|asimd_crypto"


class AnalysisBroken(Exception):
    pass


def library_units():
    """(source, extra flags) for each non-test source file, as CMakeLists.txt assigns them."""
    out = []
    for f in sorted(glob.glob(REPO + "/blend2d/**/*.cpp", recursive=True)):
        if re.search(r"_test(_(%s))?\.cpp$" % EXT, f):
            continue
        m = re.search(r"_(%s)\.cpp$" % EXT, f)
        out.append((f, FEATURE_FLAGS[m.group(1)] if m else []))
    if len(out) < 100:
        raise AnalysisBroken("only %d library translation units found" % len(out))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/blend2d/**/*", recursive=True)):
        if os.path.isfile(f) and f.endswith((".cpp", ".h", ".c", ".inc")):
            h.update(f.encode())
            with open(f, "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fp:
        h.update(fp.read())
    return h.hexdigest()[:20]


def _run(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("%s failed: %s" % (what, r.stderr[-2000:]))
    return r.stdout


CC = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fstandalone-debug", "-emit-llvm", "-ffile-prefix-map=%s=/repo" % REPO]
CLEAN = "function(sroa,early-cse,simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup>)"
PASSES = "-passes=always-inline," + CLEAN
PASSES_APART = "-passes=forceattrs," + CLEAN  # nothing inlined: every call the sources make is still there


def _compile(job):
    """Compiles one unit; a unit whose preprocessed text was compiled before is taken from the cache."""
    src, flags, raw, out, apart = job
    cc = ["clang++-18"] + BASE + flags + CC
    text = _run(cc + ["-E", src, "-o", "-"], "clang -E " + src).replace(REPO + "/", "/repo/")
    h = hashlib.sha256((" ".join(cc).replace(REPO, "/repo") + PASSES + PASSES_APART + text).encode()).hexdigest()[:32]
    tu = os.path.join(CACHE, "tu", h + ".bc")
    tu2 = os.path.join(CACHE, "tu", h + ".apart.bc")
    if not os.path.exists(tu) or not os.path.exists(tu2):
        _run(cc + ["-c", src, "-o", raw], "clang " + src)
        _run(["opt-18", PASSES, raw, "-o", raw + ".opt"], "opt " + src)
        _run(["opt-18", PASSES_APART, raw, "-o", raw + ".apart"], "opt " + src)
        os.unlink(raw)
        os.rename(raw + ".opt", tu)
        os.rename(raw + ".apart", tu2)
    else:
        os.utime(tu)
        os.utime(tu2)
    for a, b in ((tu, out), (tu2, apart)):
        if os.path.exists(b):
            os.unlink(b)
        os.link(a, b)


def build(verbose=False):
    """Returns {'dir', 'units': [(src, bc)], 'linked': path}."""
    key = tree_hash()
    d = os.path.join(CACHE, "ir-" + key)
    units = library_units()
    res = {"dir": d, "key": key, "units": [], "linked": os.path.join(d, "all.bc"), "apart": os.path.join(d, "apart.bc")}
    jobs = []
    for src, flags in units:
        name = os.path.relpath(src, REPO).replace("/", "_")
        out = os.path.join(d, name + ".bc")
        res["units"].append((src, out))
        jobs.append((src, flags, os.path.join(d, name + ".raw.bc"), out, os.path.join(d, name + ".apart.bc")))
    if os.path.exists(os.path.join(d, "done")):
        return res
    import fcntl
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(CACHE, "tu"), exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "done")):
            return res
        _prune(keep=d)
        t = time.time()
        with ThreadPoolExecutor(os.cpu_count() or 4) as p:
            list(p.map(_compile, jobs))
        link = [["llvm-link-18", "-o", res["linked"]] + [u[1] for u in res["units"]], ["llvm-link-18", "-o", res["apart"]] + [j[4] for j in jobs]]
        with ThreadPoolExecutor(2) as p:
            list(p.map(lambda c: _run(c, "llvm-link"), link))
        with open(os.path.join(d, "done"), "w") as fp:
            fp.write("%.1f" % (time.time() - t))
        if verbose:
            print("ir: built %d units in %.1fs" % (len(jobs), time.time() - t))
    return res


def _prune(keep):
    """Removes cached IR of other trees (each is ~100 MB)."""
    import shutil
    for d in glob.glob(os.path.join(CACHE, "ir-*")):
        if d != keep and time.time() - os.path.getmtime(d) > 600:
            shutil.rmtree(d, ignore_errors=True)
    tus = sorted(glob.glob(os.path.join(CACHE, "tu", "*.bc")), key=os.path.getmtime)
    for f in tus[:-2400]:
        if time.time() - os.path.getmtime(f) > 600:
            os.unlink(f)


if __name__ == "__main__":
    r = build(True)
    print(r["dir"], os.path.getsize(r["linked"]))
