"""Compiles /repo sources and harness drivers with content-hash caching.

An object is reused only when the compiler, the flags and the content of the source and of every
header it included are unchanged, so a check always runs the current working tree of /repo.
"""
import concurrent.futures
import hashlib
import json
import os
import subprocess
import sys
import threading

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))

CXX = "g++"
DEFS = ["-DPAIMON_ENABLE_ORC", "-DPAIMON_ENABLE_AVRO", "-DSNAPPY_CODEC_AVAILABLE",
        "-DZSTD_CODEC_AVAILABLE", "-DRAPIDJSON_HAS_STDSTRING"]
INCS = ["-I" + REPO + "/src", "-I" + REPO + "/include", "-I" + VERIF + "/harness",
        "-isystem", REPO + "/third_party/roaring_bitmap", "-isystem", REPO + "/third_party/xxhash",
        "-I" + VERIF + "/shim"]
COMMON = ["-std=c++17", "-w", "-g1", "-fPIC", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
FLAVORS = {
    # signed overflow and left shifts of negative values are used as wrap-around arithmetic, and
    # memcpy(NULL, .., 0) is used for empty buffers; neither is a property of the system.
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow",
             "-fno-sanitize=nonnull-attribute,vptr,shift-base",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
}
LIBS = ["-ltbb", "-lfmt", "-lpthread", "-ldl"]

_hash_cache = {}
_hash_lock = threading.Lock()


class BuildError(Exception):
    pass


def file_hash(path):
    with _hash_lock:
        h = _hash_cache.get(path)
    if h is not None:
        return h
    try:
        with open(path, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _hash_lock:
        _hash_cache[path] = h
    return h


_compiler_id = None


def compiler_id():
    global _compiler_id
    if _compiler_id is None:
        _compiler_id = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout.split("\n")[0]
    return _compiler_id


def parse_depfile(path):
    with open(path) as f:
        text = f.read().replace("\\\n", " ")
    text = text.split(":", 1)[1]
    return sorted(set(os.path.normpath(d) for d in text.replace("\\ ", "\0").split()))


def compile_one(src, flavor, extra):
    """Returns (object path or None, error text)."""
    flags = COMMON + FLAVORS[flavor] + DEFS + INCS + list(extra)
    key = hashlib.sha1(json.dumps([compiler_id(), src, flags]).encode()).hexdigest()[:20]
    odir = os.path.join(BUILD, "obj", flavor)
    os.makedirs(odir, exist_ok=True)
    base = os.path.join(odir, os.path.basename(src).replace(".cpp", "").replace(".c", "") + "-" + key)
    meta = base + ".json"
    obj = base + ".o"
    if os.path.exists(meta) and os.path.exists(obj):
        try:
            with open(meta) as f:
                deps = json.load(f)
            # system headers are part of the toolchain (compiler id); only track ours
            if all(file_hash(p) == h for p, h in deps.items()):
                return obj, ""
        except (ValueError, OSError):
            pass
    dep = base + ".d"
    compiler = CXX if src.endswith(".cpp") else "gcc"
    f = [x for x in flags if not (compiler == "gcc" and x == "-std=c++17")]
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run([compiler] + f + ["-MD", "-MF", dep, "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode != 0:
        return None, src + ":\n" + r.stderr[:6000]
    os.replace(tmp, obj)
    deps = {p: file_hash(p) for p in parse_depfile(dep)
            if p.startswith(REPO + "/") or p.startswith(VERIF + "/")}
    deps[src] = file_hash(src)
    with open(meta + ".tmp%d" % os.getpid(), "w") as fo:
        json.dump(deps, fo)
    os.replace(meta + ".tmp%d" % os.getpid(), meta)
    return obj, ""


REST_DIRS = ["common", "core", "fs/local", "format/blob"]
REST_SKIP = ("_test.cpp", "logging/logging.cpp", "_benchmark.cpp")


def rest_sources():
    out = []
    for d in REST_DIRS:
        for root, _, names in os.walk(os.path.join(REPO, "src/paimon", d)):
            for n in names:
                p = os.path.join(root, n)
                if n.endswith(".cpp") and not p.endswith(REST_SKIP) and "/test" not in p[len(REPO):]:
                    out.append(p)
    return sorted(out)


def archive_of_rest(flavor, extra, have, jobs):
    srcs = [s for s in rest_sources() + [os.path.join(VERIF, "shim", "mini_arrow.cpp"),
            os.path.join(VERIF, "harness", "quiet_logger.cpp")] if s not in have]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        objs = [o for o, _ in ex.map(lambda s: compile_one(s, flavor, extra), srcs) if o]
    lib = os.path.join(BUILD, "bin", "rest-%d.a" % os.getpid())
    if os.path.exists(lib):
        os.remove(lib)
    subprocess.run(["ar", "rc", lib] + objs, check=True)
    return [lib]


def core_sources():
    return [os.path.join(VERIF, "shim", "mini_arrow.cpp"),
            os.path.join(VERIF, "harness", "quiet_logger.cpp"),
            REPO + "/third_party/roaring_bitmap/roaring.cpp",
            REPO + "/third_party/xxhash/xxhash.c"] + rest_sources()


def build_core(flavor, jobs):
    """The library without its file-format plugins, over the columnar stand-in."""
    work = core_sources()
    objs, errors = [], []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for o, e in ex.map(lambda s: compile_one(s, flavor, ()), work):
            if o is None:
                errors.append(e)
            else:
                objs.append(o)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    out = os.path.join(BUILD, "bin", "libcore-%s.so" % flavor)
    link = [CXX] + FLAVORS[flavor] + ["-shared", "-fuse-ld=gold"] + objs + ["-lzstd", "-llz4"] + LIBS
    sig = hashlib.sha1(json.dumps([link, [file_hash(o) for o in objs]]).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(out + ".sig") and open(out + ".sig").read() == sig:
        return out
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(link + ["-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("\n".join(errors) + "\nlink of the core library failed:\n" + r.stderr[-6000:])
    for e in errors:
        sys.stderr.write("note: not compiled: %s\n" % e[:1500])
    os.replace(tmp, out)
    with _hash_lock:
        _hash_cache.pop(out, None)
    with open(out + ".sig", "w") as f:
        f.write(sig)
    return out


def build(name, flavor, driver_srcs, repo_srcs, extra=(), libs=(), jobs=None):
    """Builds one harness binary and returns its path. Raises BuildError."""
    _hash_cache.clear()
    jobs = jobs or os.cpu_count() or 4
    work = [os.path.join(VERIF, "harness", s) if not s.startswith("/") else s for s in driver_srcs]
    if repo_srcs == "CORE":
        lib = build_core(flavor, jobs)
        repo_srcs = []
        libs = [lib, "-Wl,-rpath," + os.path.dirname(lib)] + list(libs)
    work += [s if s.startswith("/") else os.path.join(REPO, "src/paimon", s) for s in repo_srcs]
    objs, errors = [], []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for s, (o, e) in zip(work, ex.map(lambda s: compile_one(s, flavor, extra), work)):
            if o is None and s.startswith(VERIF + "/"):
                raise BuildError(e)
            if o is None:
                # a source that does not compile matters only if the link needs it
                errors.append(e)
            else:
                objs.append(o)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    out = os.path.join(BUILD, "bin", "%s-%s" % (name, flavor))
    link = [CXX] + FLAVORS[flavor] + objs + list(libs) + LIBS
    shared = [x for x in libs if x.endswith(".so")]
    sig = hashlib.sha1(json.dumps([link, [file_hash(o) for o in objs + shared]]).encode()).hexdigest()
    sigf = out + ".sig"
    if os.path.exists(out) and os.path.exists(sigf) and open(sigf).read() == sig:
        return out
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(link + ["-o", tmp], capture_output=True, text=True)
    if r.returncode != 0 and "undefined reference" in r.stderr:
        # code may have moved to a source file the list does not name: offer all the others
        rest = archive_of_rest(flavor, extra, work, jobs)
        r = subprocess.run([CXX] + FLAVORS[flavor] + objs + rest + list(libs) + LIBS + ["-o", tmp],
                           capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("\n".join(errors) + "\nlink of %s failed:\n%s" % (name, r.stderr[-6000:]))
    os.replace(tmp, out)
    with open(sigf, "w") as f:
        f.write(sig)
    if errors:
        sys.stderr.write("note: %d source(s) did not compile but were not needed\n" % len(errors))
    return out
