#!/usr/bin/env python3
"""Builds harnesses from /repo's current tree.

Objects are cached under a key made of the compiler command and the *contents*
of the source file and of every header it included (from /repo and /verif), so
that a stale object can never be used, whatever the file times say.
"""
import hashlib, json, os, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
CACHE = os.environ.get("MC_CACHE", os.path.join(VERIF, ".cache"))
CXX = "/usr/lib/llvm-14/bin/clang++"
if not os.path.exists(CXX):
    CXX = "clang++-14"
ENV = dict(os.environ, LC_ALL="C.UTF-8",
           PATH="/usr/lib/llvm-14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
BASE = ["-std=c++17", "-fPIC", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
        "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
        "-DPHASAR_BUILD_DIR=\"/repo/_build\"", "-DPHASAR_SRC_DIR=\"/repo\"",
        "-w", "-ffunction-sections", "-fdata-sections", "-g0",
        f"-I{REPO}/include", f"-I{VERIF}/config", f"-I{VERIF}/harness",
        "-isystem", "/usr/lib/llvm-14/include"]
LIBFLAGS = ["-O1"]
LINK = ["-fuse-ld=lld", "-Wl,--gc-sections", "-L/usr/lib/llvm-14/lib", "-Wl,-rpath,/usr/lib/llvm-14/lib",
        "-lLLVM-14", "-lz3", "-lsqlite3", "-lboost_graph", "-lboost_regex", "-lpthread", "-ldl"]
EXCLUDE = ("lib/PhasarClang/", "lib/PhasarPass/")

_hash_lock = threading.Lock()
_hashes = {}


def fhash(path):
    with _hash_lock:
        if path in _hashes:
            return _hashes[path]
    try:
        h = hashlib.sha256(open(path, "rb").read()).hexdigest()
    except OSError:
        h = None
    with _hash_lock:
        _hashes[path] = h
    return h


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()


class BuildError(Exception):
    pass


def tracked(p):
    return p.startswith(REPO + "/") or p.startswith(VERIF + "/")


def compile_one(src, flags):
    """Returns the path of the object for src."""
    cmd = [CXX] + BASE + flags
    os.makedirs(CACHE + "/obj", exist_ok=True)
    os.makedirs(CACHE + "/man", exist_ok=True)
    real = src
    mkey = sha(json.dumps(cmd), src, fhash(src) or "")
    mpath = f"{CACHE}/man/{mkey}.json"
    entries = []
    try:
        entries = json.load(open(mpath))
    except (OSError, ValueError):
        pass
    for e in entries:
        if os.path.exists(f"{CACHE}/obj/{e['obj']}.o") and all(fhash(d) == h for d, h in e["deps"]):
            return f"{CACHE}/obj/{e['obj']}.o"
    with tempfile.TemporaryDirectory(dir=CACHE) as tmp:
        if src.endswith("/TaintConfigBase.cpp"):
            # the JSON schema validator is not installed here; drop what needs it, as the official build does
            real = f"{tmp}/TaintConfigBase.cpp"
            strip_schema(src, real)
        out, dep = f"{tmp}/o.o", f"{tmp}/o.d"
        r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", real, "-o", out], env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(f"compiling {src} failed:\n{r.stdout[-6000:]}")
        deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = sorted({os.path.normpath(d) for d in deps})
        deps = [d for d in deps if tracked(d) and not d.startswith(tmp)]
        dl = [[d, fhash(d)] for d in deps]
        okey = sha(mkey, json.dumps(dl))
        os.replace(out, f"{CACHE}/obj/{okey}.o")
    entries = [e for e in entries if e["obj"] != okey][-8:] + [{"obj": okey, "deps": dl}]
    tmpf = f"{mpath}.{os.getpid()}.{threading.get_ident()}"
    json.dump(entries, open(tmpf, "w"))
    os.replace(tmpf, mpath)
    return f"{CACHE}/obj/{okey}.o"


def strip_schema(src, dst):
    import re
    lines = open(src, encoding="utf-8").read().split("\n")
    out, i = [f'#line 1 "{src}"'], 0
    pat = re.compile(r"\S.*\bpsr::parseTaintConfig(OrNull)?\(|psr::parseTaintConfig(OrNull)?\(")
    while i < len(lines):
        if re.match(r'\s*#\s*include\s*["<]nlohmann/json-schema\.hpp[">]', lines[i]):
            out.append("")
        elif pat.match(lines[i]):
            if lines[i].startswith("psr::parseTaintConfig") and out[-1].startswith("std::optional<"):
                out[-1] = ""
            while i < len(lines) and lines[i] != "}":
                out.append("")
                i += 1
            out.append("")
        else:
            out.append(lines[i])
        i += 1
    open(dst, "w", encoding="utf-8").write("\n".join(out))


def lib_sources():
    res = []
    for d, _, fs in os.walk(REPO + "/lib"):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".cpp") and not any(p.startswith(f"{REPO}/{x}") for x in EXCLUDE):
                res.append(p)
    return sorted(res)


def jobs():
    return os.cpu_count() or 4


def pmap(fn, items):
    with ThreadPoolExecutor(jobs()) as ex:
        return list(ex.map(fn, items))


def build_lib(flags=None, only=None):
    """Static archive of phasar's libraries (content-keyed)."""
    flags = flags if flags is not None else LIBFLAGS
    srcs = [s for s in lib_sources() if only is None or any(s.startswith(f"{REPO}/lib/{o}") for o in only)]
    objs = pmap(lambda s: compile_one(s, flags), srcs)
    os.makedirs(CACHE + "/lib", exist_ok=True)
    key = sha(*objs)
    ar = f"{CACHE}/lib/{key}.a"
    if not os.path.exists(ar):
        tmp = f"{ar}.{os.getpid()}.tmp"
        rsp = f"{ar}.{os.getpid()}.rsp"
        open(rsp, "w").write("\n".join(objs))
        subprocess.run(["/usr/lib/llvm-14/bin/llvm-ar", "qcs", tmp, "@" + rsp], check=True, env=ENV)
        os.remove(rsp)
        os.replace(tmp, ar)
        prune(CACHE + "/lib", 6)
    return ar


def prune(d, keep):
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda p: os.path.getmtime(p))
    for f in fs[:-keep]:
        try:
            os.remove(f)
        except OSError:
            pass


def hints():
    try:
        return json.load(open(f"{VERIF}/tools/libhints.json"))
    except (OSError, ValueError):
        return {}


def link_cmd(objs, ars, flags, extra):
    return [CXX] + [f for f in flags if f.startswith("-fsanitize")] + objs + ars + LINK + (extra or [])


def do_link(cmd, name):
    os.makedirs(CACHE + "/bin", exist_ok=True)
    exe = f"{CACHE}/bin/{name}-{sha(json.dumps(cmd))[:24]}"
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}.tmp"
        r = subprocess.run(cmd + ["-o", tmp], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, r.stdout
        os.replace(tmp, exe)
        prune(CACHE + "/bin", 60)
    os.utime(exe)
    return exe, ""


def build_harness(name, srcs, flags, libs=True, extra_link=None, only=None, libflags=None, hint=True):
    """libs: link phasar's libraries. A committed hint says which of its files the
    harness needed last time; when they do not suffice, everything is built."""
    srcs = [f"{VERIF}/harness/{s}" if not s.startswith("/") else s for s in srcs]
    only = only or (hints().get(name) if hint else None)
    if only and not all(os.path.exists(f"{REPO}/lib/{o}") for o in only):
        only = None
    with ThreadPoolExecutor(jobs()) as ex:
        futs = [ex.submit(compile_one, s, flags) for s in srcs]
        err = None
        if libs and only is not None:
            try:
                ar = build_lib(libflags, only)
                exe, err = do_link(link_cmd([f.result() for f in futs], [ar], flags, extra_link), name)
                if exe:
                    return exe
            except BuildError:
                [f.result() for f in futs]  # the harness itself does not compile
        ar = build_lib(libflags) if libs else None
        objs = [f.result() for f in futs]
    exe, err = do_link(link_cmd(objs, [ar] if ar else [], flags, extra_link), name)
    if not exe:
        raise BuildError(f"linking {name} failed:\n{err[-6000:]}")
    return exe


def make_hint(name, srcs, flags, extra_link=None, libflags=None):
    """Which files of /repo/lib the harness needs, from the linker's trace."""
    srcs = [f"{VERIF}/harness/{s}" if not s.startswith("/") else s for s in srcs]
    by = {os.path.basename(compile_one(s, libflags if libflags is not None else LIBFLAGS)): s for s in lib_sources()}
    ar = build_lib(libflags)
    objs = [compile_one(s, flags) for s in srcs]
    r = subprocess.run(link_cmd(objs, [ar], flags, extra_link) + ["-Wl,--trace", "-o", "/dev/null"], env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    need = sorted({by[o][len(REPO) + 5:] for l in r.stdout.splitlines() if l.startswith(ar + "(")
                   for o in [l[len(ar) + 1:l.rindex(")")]] if o in by})
    return need


if __name__ == "__main__":
    import time
    t = time.time()
    print(build_lib(), time.time() - t)
