#!/usr/bin/env python3
"""Content-hash based, out-of-tree build of phate/jlm's libraries plus the PBT harness.

Usage: build.py [variant ...]      (variants: "rel" (default), "asan")

Every translation unit is keyed by the hash of its flags, its own bytes and the bytes of every
header below /repo and /verif it was seen to include the last time it was compiled, so that the result is
a pure function of /repo's current working tree (mtimes are ignored).
Nothing is ever written below /repo.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-18"
DEFS = ["-std=c++17", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
        "-D__STDC_LIMIT_MACROS", "-DJLM_ENABLE_ASSERTS", "-DJLM_VERIFICATION", "-w", "-fPIC"]
INCS = ["-I" + REPO, "-I" + os.path.join(BUILD, "gen"), "-I" + VERIF + "/harness",
        "-I/usr/lib/llvm-18/include"]
VARIANTS = {
    "rel": (["-O1", "-gline-tables-only"], ["-fuse-ld=lld"]),
    "asan": (["-O1", "-gline-tables-only", "-fsanitize=address,undefined",
              "-fno-sanitize=vptr,function,alignment", "-fno-sanitize-recover=all",
              "-fno-omit-frame-pointer"],
             ["-fuse-ld=lld", "-fsanitize=address,undefined"]),
}
EXCLUDE = re.compile(r"(Tests\.cpp$|/firrtl2verilog/|RhlsToFirrtlConverter|/mlir/)")


def sources():
    out = []
    for lib in ("util", "rvsdg", "llvm", "tooling", "hls"):
        for f in glob.glob(f"{REPO}/jlm/{lib}/**/*.cpp", recursive=True):
            if EXCLUDE.search(f):
                continue
            out.append(f)
    out += glob.glob(VERIF + "/harness/*.cpp")
    return sorted(out)


_fh = {}


def fhash(path):
    h = _fh.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _fh[path] = h
    return h


def tracked(dep):
    return dep.startswith(REPO + "/") or dep.startswith(VERIF + "/harness") or dep.startswith(BUILD + "/gen")


def parse_depfile(path):
    with open(path) as f:
        txt = f.read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    return sorted({os.path.normpath(d) for d in deps if tracked(os.path.normpath(d))})


def key(flags, deps):
    h = hashlib.sha256(" ".join(flags).encode())
    for d in deps:
        h.update(d.encode()); h.update(fhash(d).encode())
    return h.hexdigest()


def uptodate(obj, flags):
    try:
        with open(obj + ".json") as f:
            meta = json.load(f)
        return os.path.exists(obj) and meta["key"] == key(flags, meta["deps"])
    except Exception:
        return False


def compile_one(job):
    src, obj, flags, pch = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if uptodate(obj, flags):
        return (src, 0, "", False)
    tries = [pch, None] if pch else [None]
    for p in tries:
        cmd = [CXX] + flags + (["-include-pch", p] if p else []) + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            deps = parse_depfile(obj + ".d")
            if p:
                deps = sorted(set(deps) | set(parse_depfile(p + ".d")))
            with open(obj + ".json", "w") as f:
                json.dump({"key": key(flags, deps), "deps": deps}, f)
            return (src, 0, "", True)
    try:
        os.unlink(obj + ".json")
    except OSError:
        pass
    return (src, r.returncode, r.stdout, True)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def gen():
    write_if_changed(BUILD + "/gen/jlm/tooling/CommandPaths.hpp", r'''#ifndef JLM_TOOLING_COMMANDPATHS_HPP
#define JLM_TOOLING_COMMANDPATHS_HPP
#include <jlm/util/file.hpp>
static const jlm::util::FilePath clangpath("/usr/lib/llvm-18/bin/clang");
static const jlm::util::FilePath llcpath("/usr/lib/llvm-18/bin/llc");
#endif
''')


def build(variant="rel", verbose=True):
    t0 = time.time()
    opt, ld = VARIANTS[variant]
    flags = DEFS + opt + INCS
    gen()
    odir = f"{BUILD}/{variant}"
    os.makedirs(odir, exist_ok=True)
    # one builder at a time per variant
    with open(odir + "/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        pch = odir + "/pch.hpp.pch"
        hdr = VERIF + "/harness/pch/pch.hpp"
        pflags = flags + ["-fpch-validate-input-files-content", "-x", "c++-header"]
        if not uptodate(pch, pflags):
            r = subprocess.run([CXX] + pflags + ["-MD", "-MF", pch + ".d", hdr, "-o", pch],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                deps = parse_depfile(pch + ".d")
                with open(pch + ".json", "w") as f:
                    json.dump({"key": key(pflags, deps), "deps": deps}, f)
            else:
                sys.stderr.write("pch failed, building without it\n" + r.stdout[-2000:])
                pch = None
        jobs = []
        for s in sources():
            rel = os.path.relpath(s, REPO) if s.startswith(REPO + "/") else "verif/" + os.path.relpath(s, VERIF)
            jobs.append((s, f"{odir}/{rel}.o", flags, pch))
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**7 if j[0].endswith(("LlvmModuleConversion.cpp",)) else 0))
        errs, n = [], 0
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for src, rc, out, did in ex.map(compile_one, jobs):
                n += did
                if rc:
                    errs.append((src, out))
        if errs:
            for s, o in errs:
                sys.stderr.write(f"== {s}\n{o[-6000:]}\n")
            return None
        exe = f"{odir}/pbt"
        objs = sorted(j[1] for j in jobs)
        lkey = hashlib.sha256("".join(json.load(open(o + ".json"))["key"] for o in objs).encode()
                              + " ".join(objs + ld).encode()).hexdigest()
        try:
            ok = open(exe + ".key").read() == lkey and os.path.exists(exe)
        except OSError:
            ok = False
        if not ok:
            write_if_changed(odir + "/objs.rsp", "\n".join(objs))
            r = subprocess.run([CXX] + ld + ["@" + odir + "/objs.rsp", "-o", exe + ".tmp", "-L/usr/lib/llvm-18/lib",
                                "-Wl,-rpath,/usr/lib/llvm-18/lib", "-lLLVM-18", "-lpthread", "-ldl", "-rdynamic"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout[-6000:])
                return None
            os.rename(exe + ".tmp", exe)
            with open(exe + ".key", "w") as f:
                f.write(lkey)
        if verbose:
            sys.stderr.write(f"[build {variant}] {n}/{len(jobs)} compiled, {time.time()-t0:.1f}s\n")
        return exe


if __name__ == "__main__":
    for v in (sys.argv[1:] or ["rel"]):
        if build(v) is None:
            sys.exit(2)
