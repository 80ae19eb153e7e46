"""Mechanical extraction: clang++ compiles /repo's headers to LLVM IR on every run; the IR is what the verifier reads."""
import os, subprocess, hashlib, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("Z5_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CLANG = "/usr/lib/llvm-18/bin/clang++"
DEFS = ["-DLIBDEFLATE_DLL", "-DWITH_BLOSC", "-DWITH_BZIP2", "-DWITH_LIBDEFLATE", "-DWITH_LZ4", "-DWITH_XZ", "-DWITH_ZLIB", "-DWITH_ZSTD"]
_L = "/usr/lib/x86_64-linux-gnu/"
def _lib(*names):
    for n in names:
        if os.path.exists(_L + n): return _L + n
    return "-l" + names[0][3:].split(".")[0]
LIBS = [_lib("libblosc.so"), _lib("libdeflate.so", "libdeflate.so.0"), _lib("libbz2.so"), _lib("liblzma.so"), _lib("liblz4.so", "liblz4.so.1"), _lib("libzstd.so"), "-lpthread"]
IRFLAGS = DEFS + ["-I" + REPO + "/include", "-std=c++20", "-DNDEBUG", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
                  "-femit-all-decls", "-gline-tables-only", "-fno-access-control", "-S", "-emit-llvm", "-w"]

def tree_hash(*extra):
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(REPO + "/include")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, "rb").read())
    for p in extra:
        h.update(open(p, "rb").read())
    h.update(" ".join(IRFLAGS).encode())
    return h.hexdigest()[:20]

class BuildError(Exception): pass

def ir(harness):
    """IR of a harness translation unit (generated from the current tree)"""
    src = os.path.join(HERE, "harness", harness + ".cpp")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s.ll" % (harness, tree_hash(src)))
    if os.path.exists(out): return out
    tmp = out + ".%d.tmp" % os.getpid()
    p = subprocess.run([CLANG] + IRFLAGS + [src, "-o", tmp], capture_output=True, text=True)
    if p.returncode: raise BuildError("clang: " + p.stderr[-3000:])
    os.rename(tmp, out)
    return out

def native(name, flags=("-O1",), cxx="g++"):
    """compile a native replay driver against the current tree"""
    src = os.path.join(HERE, "replay", name + ".cpp")
    os.makedirs(BUILD, exist_ok=True)
    common = [os.path.join(HERE, "replay", f) for f in sorted(os.listdir(os.path.join(HERE, "replay"))) if f.endswith(".hxx")]
    tag = hashlib.sha256((" ".join(flags) + cxx).encode()).hexdigest()[:6]
    out = os.path.join(BUILD, "%s-%s-%s" % (name, tag, tree_hash(src, *common)))
    if os.path.exists(out): return out
    tmp = out + ".%d.tmp" % os.getpid()
    import re
    m = re.search(r"PARTS=(\d+)", open(src).read()); parts = int(m.group(1)) if m else 1
    ml = re.search(r"LINK=(.*)", open(src).read()); link = ml.group(1).split() if ml else []
    base = [cxx if cxx != "clang++" else CLANG] + DEFS + ["-I" + REPO + "/include", "-std=c++20", "-DNDEBUG", "-w"] + list(flags)
    objs = [tmp + ".%d.o" % k for k in range(parts)]
    try:
        ps = [subprocess.Popen(base + ["-DPART=%d" % k, "-c", src, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True) for k, o in enumerate(objs)]
        errs = [p.communicate()[1] for p in ps]
        for p, e in zip(ps, errs):
            if p.returncode: raise BuildError("%s: %s" % (cxx, e[-3000:]))
        p = subprocess.run(base + objs + link + ["-o", tmp] + LIBS, capture_output=True, text=True)
        if p.returncode: raise BuildError("%s: %s" % (cxx, p.stderr[-3000:]))
        os.rename(tmp, out)
    finally:
        for o in objs:
            if os.path.exists(o): os.unlink(o)
    return out
