"""Builds the CPU side of /repo's working tree (library + drivers) out of tree.

Objects are reused only when the contents of every file they were compiled from
(per the compiler's dependency list) and the command line are unchanged.
"""
import hashlib, json, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

# Sources that are compiled on other platforms / for GPU backends only
SKIP_PREFIX = ("cuda_", "optix_", "metal_", "gl_interop")
COMMON = ["-std=c++17", "-fPIC", "-fno-omit-frame-pointer", "-gline-tables-only", "-w"]
DEFS = ["-DDRJIT_BUILD=1", "-DDRJIT_DYNAMIC_LLVM=1", "-DDRJIT_DYNAMIC_CUDA=1", "-DLZ4LIB_VISIBILITY="]
VARIANTS = {
    # name: (C++ compiler, C compiler, flags)
    "plain": ("clang++", "clang", ["-O1", "-DNDEBUG"]),
    "asan": ("clang++", "clang", ["-O1", "-DDRJIT_SANITIZE_INTENSE=1", "-fsanitize=address,undefined", "-fno-sanitize=function,vptr",
                                 "-fno-sanitize-recover=all"]),
    "tsan": ("clang++", "clang", ["-O1", "-fsanitize=thread"]),
}

class BuildError(Exception):
    pass

_hash_cache = {}
_lock = threading.Lock()

def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "missing"
    k = (p, st.st_mtime_ns, st.st_size)
    with _lock:
        if k in _hash_cache:
            return _hash_cache[k]
    h = hashlib.sha256(open(p, "rb").read()).hexdigest()
    with _lock:
        _hash_cache[k] = h
    return h

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def compile_obj(cmd, src, obj):
    """Compile src to obj unless an identical object is already there."""
    dep, meta = obj + ".d", obj + ".json"
    full = cmd + ["-MMD", "-MF", dep, "-c", src, "-o", obj]
    try:
        m = json.load(open(meta))
        if m["cmd"] == full and os.path.exists(obj) and all(fhash(p) == h for p, h in m["deps"].items()):
            return obj
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(meta):
        os.unlink(meta)
    run(full)
    txt = open(dep).read().replace("\\\n", " ")
    deps = [os.path.normpath(os.path.join(os.getcwd(), x)) for x in txt.split(":", 1)[1].split()]
    json.dump({"cmd": full, "deps": {d: fhash(d) for d in deps}}, open(meta, "w"))
    return obj

def embed(out):
    """Equivalent of cmake/bin2c.cmake for the LZ4 dictionary."""
    src = os.path.join(REPO, "resources/kernels_dict.lz4")
    data = open(src, "rb").read()
    txt = '#include "resources/kernels.h"\nconst char kernels_dict[] = {' + \
        ",".join("(char) %d" % b for b in data) + "};\n"
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out) or open(out).read() != txt:
        open(out, "w").write(txt)
    return out

def lib_sources():
    src = os.path.join(REPO, "src")
    r = []
    for f in sorted(os.listdir(src)):
        if f.endswith(".cpp") and not f.startswith(SKIP_PREFIX):
            r.append(os.path.join(src, f))
    return r

def includes():
    return ["-I" + REPO + "/include", "-I" + REPO, "-I" + REPO + "/ext/lz4", "-I" + VERIF + "/shim", "-I" + VERIF + "/harness"]

def link(cmd, objs, out, libs=()):
    meta = out + ".json"
    key = {"cmd": cmd, "libs": list(libs), "objs": {o: fhash(o) for o in objs}, "dep": {l: fhash(l) for l in libs if l.startswith("/")}}
    try:
        if os.path.exists(out) and json.load(open(meta)) == key:
            return out
    except (OSError, ValueError):
        pass
    if os.path.exists(meta):
        os.unlink(meta)
    run(cmd + objs + list(libs) + ["-o", out])
    json.dump(key, open(meta, "w"))
    return out

def directives(driver):
    """Leading comments of a driver: '// flags: ...' (extra compiler flags) and '// standalone: a b' (link only the
    listed library objects instead of the whole library)."""
    flags, alone = [], None
    with open(os.path.join(VERIF, "harness", driver + ".cpp")) as f:
        for l in f:
            if not l.startswith("//"):
                break
            if l.startswith("// flags:"):
                flags = l.split(":", 1)[1].split()
            if l.startswith("// standalone:"):
                alone = l.split(":", 1)[1].split()
    return flags, alone

def build(pairs, jobs=8, extra=None):
    """pairs: iterable of (driver, variant). Returns {(driver, variant): exe}."""
    pairs = list(dict.fromkeys(pairs))
    res = {}
    dirs = {d: directives(d) for d, _ in pairs}
    with ThreadPoolExecutor(jobs) as ex:
        libs, drv = {}, {}
        for v in dict.fromkeys(v for _, v in pairs):
            cxx, cc, fl = VARIANTS[v]
            d = os.path.join(BUILD, v)
            os.makedirs(d, exist_ok=True)
            base = [cxx] + COMMON + fl + DEFS + includes()
            full = any(vv == v and dirs[dn][1] is None for dn, vv in pairs)
            need = set(x for dn, vv in pairs if vv == v and dirs[dn][1] for x in dirs[dn][1])
            # the largest translation units first
            futs = {}
            srcs = sorted(lib_sources(), key=lambda p: -os.path.getsize(p))
            for s in srcs:
                n = os.path.basename(s)[:-4]
                if full or n in need:
                    c = base + (["-fassociative-math", "-fno-signed-zeros", "-fno-trapping-math"] if n == "llvm_ts" else [])
                    futs[n] = ex.submit(compile_obj, c, s, os.path.join(d, "lib", n + ".o"))
            cbase = [cc, "-fPIC", "-gline-tables-only", "-w"] + fl + DEFS + includes()
            if v == "asan":  # third-party compression code: no UBSan (alignment tricks), address checks kept
                cbase += ["-fno-sanitize=undefined"]
            for n in ("lz4", "xxhash"):
                if full or n in need:
                    futs[n] = ex.submit(compile_obj, cbase, REPO + "/ext/lz4/%s.c" % n, os.path.join(d, "lib", n + ".o"))
            if full or "kernels_dict" in need:
                futs["kernels_dict"] = ex.submit(compile_obj, cbase, embed(os.path.join(BUILD, "kernels_dict.c")), os.path.join(d, "lib", "kernels_dict.o"))
            futs["nanothread"] = ex.submit(compile_obj, base, VERIF + "/shim/nanothread.cpp", os.path.join(d, "lib", "nanothread.o"))
            libs[v] = futs
        for dn, v in pairs:
            cxx, cc, fl = VARIANTS[v]
            d = os.path.join(BUILD, v)
            base = [cxx] + COMMON + fl + includes() + dirs[dn][0]
            drv[(dn, v)] = ex.submit(compile_obj, base, VERIF + "/harness/%s.cpp" % dn, os.path.join(d, "drv", dn + ".o"))
        for v in libs:
            cxx, cc, fl = VARIANTS[v]
            objs = {n: f.result() for n, f in libs[v].items()}
            d = os.path.join(BUILD, v)
            for (dn, vv), f in drv.items():
                if vv == v:
                    alone = dirs[dn][1]
                    use = list(objs.values()) if alone is None else [objs[n] for n in alone + ["nanothread"]]
                    res[(dn, v)] = link([cxx] + fl + ["-rdynamic"], [f.result()] + use, os.path.join(d, dn), ["-ldl", "-lpthread"])
    return res

if __name__ == "__main__":
    a = sys.argv[1:]
    if a == ["setup"]:  # nothing to install: every check builds what it needs from /repo's working tree
        os.makedirs(BUILD, exist_ok=True)
        for tool in ("clang", "clang++"):
            run([tool, "--version"])
        a = []
    for k, e in build([tuple(x.split(":")) for x in a]).items():
        print(k, e)
