#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it: check.py <PROPERTY-ID> [--replay FILE] [runner options].

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken. Anything else: check error.
"""
import hashlib
import json
import os
import re
import shlex
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HARNESS = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HARNESS)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
COMPILER_ID = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout

BASE = [
    "-std=c++20", "-w", "-g0", "-DNDEBUG", "-DBUILD_TESTS", "-DCURA_ENGINE_VERSION=\"x\"", "-DCURA_ENGINE_HASH=\"u\"",
    "-DSENTRY_ENVIRONMENT=\"\"", "-D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR=1", "-DSPDLOG_COMPILED_LIB",
    "-DSPDLOG_FMT_EXTERNAL", "-ffunction-sections", "-fdata-sections",
    "-I" + HARNESS + "/shim", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/stb", "-I" + HARNESS,
]
LIBS = "-lspdlog -lfmt -lpolyclipping -lpng -ltbb -lpthread"


def engine_sources():
    t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(engine_SRCS(.*?)\n\s*\)", t, re.S)
    src = re.findall(r"src/[A-Za-z0-9_/.]+\.cpp", m.group(1))
    if not src:
        raise SystemExit("no engine sources found in CMakeLists.txt")
    return list(dict.fromkeys(src))


# Slow files first, so that the tail of the build is short.
SLOW = ["src/LayerPlan.cpp", "FffGcodeWriter", "TreeSupport.cpp", "MeshMaterialSplitter", "SkeletalTrapezoidation.cpp",
        "GcodeTemplateResolver", "src/support.cpp", "TreeSupportTip", "TreeModelVolumes", "gcodeExport", "InsetOrderOptimizer",
        "Settings.cpp", "CommandLine", "MeshGroup", "FffPolygonGenerator", "Shape.cpp"]


def rank(s):
    for i, k in enumerate(SLOW):
        if k in s:
            return i
    return len(SLOW)


def read_spec(pid):
    """// KEY: value lines at the top of the check's source."""
    path = os.path.join(HARNESS, "checks", pid + ".cpp")
    spec = {"sources": [], "flags": [], "opt": "-O1"}
    for line in open(path):
        if not line.startswith("//"):
            break
        m = re.match(r"//\s*([A-Z]+):\s*(.*)", line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).split()
        if k == "SOURCES":
            spec["sources"] += v
        elif k == "FLAGS":
            spec["flags"] += v
        elif k == "OPT":
            spec["opt"] = v[0]
    return path, spec


_file_hash = {}


def file_hash(p):
    h = _file_hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _file_hash[p] = h
    return h


class Builder:
    """Compiles with a content-addressed object cache: an object is reused only if the source and every header of /repo
    and /verif it was compiled from have the very same contents, and the flags are the same."""

    def __init__(self, flags):
        self.flags = BASE + flags
        self.key = hashlib.sha256(("\0".join(self.flags) + file_hash(HARNESS + "/pch.h") + COMPILER_ID).encode()).hexdigest()[:12]
        self.dir = os.path.join(BUILD, self.key)
        os.makedirs(self.dir, exist_ok=True)
        self.pch = self.dir + "/pch.h.pch"

    def ensure_pch(self):
        if not os.path.exists(self.pch):
            tmp = self.pch + f".{os.getpid()}"
            r = subprocess.run([CXX] + self.flags + ["-x", "c++-header", "-Xclang", "-fno-pch-timestamp", "-fpch-instantiate-templates", HARNESS + "/pch.h", "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                return r.stderr
            os.replace(tmp, self.pch)
        return None

    def names(self, src):
        base = self.dir + "/" + os.path.relpath(src, "/").replace("/", "_")
        return base + ".o", base + ".deps.json"

    def fresh(self, src):
        ob, dj = self.names(src)
        try:
            deps = json.load(open(dj))
        except (OSError, ValueError):
            return False
        return os.path.exists(ob) and all(file_hash(p) == h for p, h in deps.items())

    def compile(self, src):
        ob, dj = self.names(src)
        for f in (ob, dj):
            if os.path.exists(f):
                os.unlink(f)
        use_pch = [] if "-no-pch" in self.flags else ["-include-pch", self.pch, "-Xclang", "-fno-validate-pch"]
        tmp = f"{ob}.{os.getpid()}.tmp"
        r = subprocess.run([CXX] + self.flags + use_pch + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return src, r.stderr
        words = open(tmp + ".d").read().replace("\\\n", " ").split()[1:]
        os.unlink(tmp + ".d")
        deps = {src: file_hash(src)}
        for w in words:
            p = os.path.realpath(w) if not w.startswith("/") else os.path.normpath(w)
            if p.startswith(REPO + "/") or p.startswith(VERIF + "/"):
                deps[p] = file_hash(p)
        os.replace(tmp, ob)
        json.dump(deps, open(dj, "w"))
        return src, None

    def build(self, sources):
        """Returns (objects, errors)."""
        todo = [s for s in sources if not self.fresh(s)]
        todo.sort(key=lambda s: (rank(s), s))
        errors = {}
        if todo:
            e = self.ensure_pch()
            if e:
                return [], {"pch": e}
            with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
                for src, err in ex.map(self.compile, todo):
                    if err:
                        errors[src] = err
        self.compiled = len(todo)
        return [self.names(s)[0] for s in sources], errors

    def link(self, objs, exe):
        tmp = f"{exe}.{os.getpid()}.tmp"
        r = subprocess.run([CXX] + self.flags + ["-o", tmp] + objs + ["-Wl,--gc-sections"] + LIBS.split(), capture_output=True, text=True)
        if r.returncode:
            return r.stderr
        os.replace(tmp, exe)
        return None


def errlines(text):
    return [l for l in text.splitlines() if re.search(r"error:|undefined reference", l)] or text.splitlines()[:5]


def build(pid):
    path, spec = read_spec(pid)
    allsrc = engine_sources()
    want = []
    if spec["sources"] != ["ALL"]:
        for pat in spec["sources"]:
            rx = re.compile("src/" + re.escape(pat).replace(r"\*", "[^/]*") + "$")
            hit = [s for s in allsrc if rx.match(s)]
            if not hit:
                print(f"note: no source matches {pat}", file=sys.stderr)
            want += hit
        attempts = [list(dict.fromkeys(want)), allsrc]
    else:
        attempts = [allsrc]
    b = Builder([spec["opt"]] + spec["flags"])
    exe = os.path.join(b.dir, pid)
    errs = []
    for sources in attempts:
        objs, errors = b.build([path] + [os.path.join(REPO, s) for s in sources])
        if errors:
            errs = [l for e in errors.values() for l in errlines(e)]
            if path in errors or "pch" in errors:
                break
            continue
        e = b.link(objs, exe)
        if e is None:
            return exe
        errs = errlines(e)
        if len(attempts) == 2:
            print("note: link with the listed sources failed: " + errs[0][-300:], file=sys.stderr)
    print("\n".join(e[:400] for e in errs[:40]))
    return None


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    seed = os.environ.get("VERIF_SEED") or "1"
    tier = os.environ.get("VERIF_TIER") or "quick"
    t0 = time.time()
    exe = build(pid)
    if exe is None:
        print(f"check error: {pid} does not build")
        return 2
    if args == ["--build-only"]:
        print(exe, f"{time.time()-t0:.1f}s")
        return 0
    t1 = time.time()
    out = os.path.join(VERIF, "out", pid)
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, VERIF_SEED=seed, VERIF_TIER=tier, VERIF_DATA=os.path.join(HARNESS, "data"), VERIF_REPO=REPO)
    if args and args[0] == "--replay":
        return subprocess.run([exe] + args, env=env).returncode
    summary = os.path.join(out, f"summary-{tier}.json")
    if os.path.exists(summary):
        os.unlink(summary)
    wall = "2400" if tier == "thorough" else "420"
    r = subprocess.run([exe, "--out", out, "--summary", summary, "--max-wall", wall] + args, env=env)
    if r.returncode not in (0, 1) or not os.path.exists(summary):
        print(f"check error: {pid} runner ended with {r.returncode}")
        return 2
    s = json.load(open(summary))
    ev = {
        "property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": s["evaluations"], "distinct_nontrivial": s["distinct_nontrivial"], "rule": s["rule"],
            "samples": s["samples"], "discarded": s["discarded"], "per_subproperty": s["per_subproperty"],
            "stopped_by_wall_cap": s["stopped_by_wall_cap"], "unreproduced_failures": s["unreproduced"],
        },
        "assumptions": ["Third-party code (Clipper, Boost, TBB, range-v3, spdlog, fmt) is taken as correct.",
                        "Build: clang -O1, NDEBUG as in the release build; see DESIGN.md for stand-ins of missing dependencies."],
        "wall_s": round(time.time() - t0, 2), "build_s": round(t1 - t0, 2), "violations": s["violations"],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for kf in known_findings(pid):
        print(kf)
    print(f"{pid}: build {t1-t0:.1f}s, total {time.time()-t0:.1f}s")
    return r.returncode


def known_findings(pid):
    r = []
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            r.append(f"KNOWN-FINDING: property={pid} {m.group(2)}")
    return r


if __name__ == "__main__":
    sys.exit(main())
