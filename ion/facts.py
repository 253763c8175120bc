"""Fact extraction: parses every translation unit of /repo's current working tree with the libTooling
extractor (tools/ionfacts) and merges the resolved syntax trees into one program model."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ION_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis itself cannot give an answer (the sources do not parse, an anchor vanished)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def build_extractor():
    src = os.path.join(VERIF, "tools/ionfacts/ionfacts.cpp")
    out = os.path.join(CACHE, "bin", "ionfacts-" + sha(read(src)))
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = subprocess.run([LLVM + "/bin/llvm-config", "--cppflags"], capture_output=True, text=True,
                           check=True).stdout.split()
    tmp = out + ".%d.tmp" % os.getpid()
    cmd = [LLVM + "/bin/clang++", "-std=c++20", "-O1", "-fno-rtti", "-fno-exceptions", "-w"] + flags + [
        src, "-o", tmp, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18",
        "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("cannot build the fact extractor:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def source_files(repo=None):
    repo = repo or REPO
    res = []
    for top in ("lib", "app"):
        for d, ds, fs in os.walk(os.path.join(repo, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".cc", ".hpp", ".in", ".cxx", ".inl", ".ipp")):
                    res.append(os.path.join(d, f))
    return sorted(res)


def tree_hash(repo=None):
    repo = repo or REPO
    parts = [read(os.path.join(VERIF, "tools/ionfacts/ionfacts.cpp"))]
    for d, ds, fs in os.walk(os.path.join(VERIF, "stubs")):
        ds.sort()
        for f in sorted(fs):
            parts.append(read(os.path.join(d, f)))
    parts.append(read(os.path.abspath(__file__)))
    for f in source_files(repo):
        parts.append(os.path.relpath(f, repo))
        parts.append(read(f))
    return sha(*parts)


def include_flags(repo, gen):
    return ["-I" + gen, "-I" + os.path.join(repo, "lib"), "-I" + os.path.join(repo, "app"),
            "-isystem", os.path.join(VERIF, "stubs")]


def write_version(repo, gen):
    os.makedirs(gen, exist_ok=True)
    txt = read(os.path.join(repo, "lib/version.h.in")).decode()
    with open(os.path.join(gen, "version.h"), "w") as f:
        f.write(txt.replace("@ION_BUILD_VERSION@", "0.0.0"))


PARSE_FLAGS = ["-std=c++23", "-DNDEBUG", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL",
               "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined", "-w", "-ferror-limit=20",
               "-resource-dir", LLVM + "/lib/clang/18"]


def extract(repo=None, verbose=False):
    """Returns the merged program facts (a dict) for the current sources of repo."""
    repo = repo or REPO
    key = tree_hash(repo)
    cfile = os.path.join(CACHE, "facts", key + ".json")
    if os.path.exists(cfile):
        with open(cfile) as f:
            return json.load(f)
    exe = build_extractor()
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="ionfacts-")
    try:
        gen = os.path.join(work, "gen")
        write_version(repo, gen)
        tus = [f for f in source_files(repo) if f.endswith((".cpp", ".cc", ".cxx"))]
        real_root = os.path.realpath(repo)
        roots = ",".join([real_root + "/lib/", real_root + "/app/"])

        def one(i):
            out = os.path.join(work, "tu%d.json" % i)
            cmd = [exe, out, roots, tus[i], "--"] + PARSE_FLAGS + include_flags(repo, gen)
            r = subprocess.run(cmd, capture_output=True, text=True)
            return tus[i], out, r.returncode, r.stderr

        with ThreadPoolExecutor(8) as ex:
            # largest (slowest to parse) first
            order = sorted(range(len(tus)), key=lambda i: -os.path.getsize(tus[i]))
            results = list(ex.map(one, order))
        results.sort(key=lambda r: r[0])
        prog = {"functions": {}, "records": {}, "globals": {}, "enums": {}, "types": [], "tus": []}
        tindex = {}
        for tu, out, rc, err in results:
            if not os.path.exists(out):
                raise AnalysisBroken("extractor produced nothing for %s:\n%s" % (tu, err[-3000:]))
            with open(out) as f:
                d = json.load(f)
            if d["errors"]:
                raise AnalysisBroken("%s does not parse:\n%s" % (tu, err[-3000:]))
            prog["tus"].append(os.path.relpath(tu, repo))
            merge(prog, d, tindex)
        os.makedirs(os.path.dirname(cfile), exist_ok=True)
        tmp = cfile + ".%d.tmp" % os.getpid()
        with open(tmp, "w") as f:
            json.dump(prog, f)
        os.replace(tmp, cfile)
        prune(os.path.dirname(cfile))
        if verbose:
            print("extracted %d functions from %d units in %.1f s" % (
                len(prog["functions"]), len(prog["tus"]), time.time() - t0), file=sys.stderr)
        return prog
    finally:
        shutil.rmtree(work, ignore_errors=True)


def prune(d, keep=12):
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    for f in fs[:-keep]:
        try:
            os.remove(f)
        except OSError:
            pass


def merge(prog, d, tindex):
    """Merges one unit's facts; type indices are renumbered into the program-wide table."""
    tmap = {}
    new = []
    for i, t in enumerate(d["types"]):
        s = t["s"] + ("|repo" if t.get("repo") else "")
        if s in tindex:
            tmap[i] = tindex[s]
        else:
            tindex[s] = len(prog["types"])
            tmap[i] = tindex[s]
            prog["types"].append(t)
            new.append(t)
    tmap[-1] = -1

    def fix_targs(a):
        for x in a:
            if "t" in x:
                x["t"] = tmap[x["t"]]

    for t in new:
        if "to" in t:
            t["to"] = tmap[t["to"]]
        if "targs" in t:
            fix_targs(t["targs"])

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
        elif isinstance(n, dict):
            for k, v in n.items():
                if k in ("t", "at", "ct", "clt", "r", "ret", "clst") and type(v) is int:
                    n[k] = tmap[v]
                elif k == "p" and isinstance(v, list):
                    n[k] = [tmap[x] for x in v]
                elif k == "ta" and isinstance(v, list):
                    fix_targs(v)
                elif k in ("apv",):
                    continue
                else:
                    if isinstance(v, (dict, list)):
                        walk(v)

    for sect in ("functions", "records", "globals"):
        for u, f in d[sect].items():
            old = prog[sect].get(u)
            if old is None or (sect == "globals" and f and not (old.get("apv") or old.get("init")) and
                               (f.get("apv") or f.get("init"))):
                if f is None:
                    continue
                walk(f)
                prog[sect][u] = f
            elif sect == "functions":
                merge_lambda_ops(old, f)
    for u, e in d["enums"].items():
        prog["enums"].setdefault(u, e)


def merge_lambda_ops(old, new):
    """A generic lambda in an inline function may be instantiated differently in different units."""
    def lambdas(n, acc):
        if isinstance(n, dict):
            if n.get("k") == "Lambda":
                acc[n["id"]] = n
            for v in n.values():
                if isinstance(v, (dict, list)):
                    lambdas(v, acc)
        elif isinstance(n, list):
            for x in n:
                lambdas(x, acc)
    a, b = {}, {}
    lambdas(new, b)
    if not b:
        return
    lambdas(old, a)
    for k, n in b.items():
        if k in a:
            for o in n["ops"]:
                if o not in a[k]["ops"]:
                    a[k]["ops"].append(o)
