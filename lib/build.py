"""Builds the code under test from /repo's working tree, out of tree, cached by content."""
import os, subprocess, hashlib, fcntl, shutil, glob
from concurrent.futures import ThreadPoolExecutor
from common import ROOT, REPO, HarnessError

BUILD = os.path.join(ROOT, "build")
UB = "undefined"
# A null pointer with a zero length is passed to memcpy in places; the C library's
# nonnull attribute flags it although nothing is accessed (not a violation here).
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,pointer-overflow",
             "-fno-sanitize-recover=all", "-DCCSANI"],
    "tsan": ["-fsanitize=thread", "-DCCSANI"],
    "msan": ["-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-fno-sanitize-recover=all", "-DCCSANI"],
    "plain": [],
}
CC = {"msan": "clang"}
DEFS = ["-DNOMIMALLOC", "-DNOJEMALLOC", "-DNOURING", "-DNOOPENSSL", "-D_GNU_SOURCE",
        "-U_FORTIFY_SOURCE"]      # fortified calls would bypass the sanitizers and the wrapped calls
WRAPS = ["clock_gettime", "open", "fopen", "read", "write", "writev", "pwrite", "fwrite", "fsync", "fdatasync",
         "rename", "unlink", "remove", "close", "ftruncate", "pthread_create", "malloc",
         "setsockopt", "listen", "epoll_wait"]

def _read(p):
    with open(p, "rb") as f:
        return f.read()

def src_files():
    return sorted(f for f in glob.glob(os.path.join(REPO, "src", "*")) if f.endswith((".c", ".h")))

def src_hash(extra=()):
    h = hashlib.sha256()
    for f in src_files():
        if os.path.basename(f) == "gitinfo.h":
            continue
        h.update(os.path.basename(f).encode() + b"\0" + _read(f) + b"\0")
    for e in extra:
        h.update(repr(e).encode() if not isinstance(e, bytes) else e)
    return h.hexdigest()[:16]

def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0:
        raise HarnessError("build failed: " + " ".join(cmd) + "\n" + p.stdout.decode("latin1")[-3000:])

class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def _copy_src(dst):
    os.makedirs(dst, exist_ok=True)
    for f in src_files():
        shutil.copy(f, dst)
    gi = os.path.join(dst, "gitinfo.h")
    with open(gi, "w") as f:
        f.write('char GITHASH[]="0000000";\nchar GITVERS[]="v0.0.0";\n')

def _prune(keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
    except FileNotFoundError:
        return
    ds.sort(key=os.path.getmtime)
    for d in ds[:-40]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)

def _compile(name, key, flags, sources_fn, out, libs=("-lm", "-lpthread"), link=(), cc="gcc"):
    d = os.path.join(BUILD, f"{name}-{key}")
    exe = os.path.join(d, out)
    with _Lock(f"{name}-{key}"):
        if os.path.exists(exe):
            os.utime(d)
            return exe
        src = os.path.join(d, "src")
        _copy_src(src)
        files = sources_fn(src)
        objs = []
        def one(f):
            o = os.path.join(d, os.path.basename(f) + ".o")
            _run([cc, "-g", "-fno-omit-frame-pointer", *flags, *DEFS, "-I" + src, "-c", f, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, files))
        _run([cc, "-g", *flags, *objs, *link, "-o", exe + ".tmp", *libs])
        os.rename(exe + ".tmp", exe)
        for o in objs:
            os.unlink(o)
        _prune(d)
    return exe

def engine(harness, san="asan", opt="-O1", extra_flags=(), with_engine=True):
    """Links /verif/harness/<harness> with /repo/src/pogocache.c."""
    h = os.path.join(ROOT, "harness", harness)
    flags = [opt, "-Wall", *SAN[san], *extra_flags]
    key = src_hash([_read(h), flags, with_engine, DEFS] + [_read(x) for x in sorted(glob.glob(os.path.join(ROOT, "harness", "*.h")))])
    def files(src):
        return [h] + ([os.path.join(src, "pogocache.c")] if with_engine else [])
    flags = flags + ["-I" + os.path.join(ROOT, "harness")]
    return _compile(harness.replace(".c", "") + "-" + san, key, flags, files, harness.replace(".c", ""))

def server(san="asan", opt="-O1", shim=True):
    sh = os.path.join(ROOT, "harness", "shim.c")
    flags = [opt, *SAN[san], "-DSHIM_" + san.upper()]
    key = src_hash([_read(sh) if shim else b"", flags, WRAPS, DEFS])
    def files(src):
        fs = sorted(glob.glob(os.path.join(src, "*.c")))
        return fs + ([sh] if shim else [])
    link = [f"-Wl,--wrap={w}" for w in WRAPS] if shim else []
    return _compile("server-" + san + ("" if shim else "-noshim"), key, flags, files, "pogocache", link=link, cc=CC.get(san, "gcc"))
