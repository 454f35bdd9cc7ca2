"""Loads the type-checked program of /repo (via tools/cxdump) for the analyses."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import pickle
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("COCPP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CACHE = os.environ.get("COCPP_CACHE", BUILD)
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (missing anchor, unreadable source...)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_tool():
    src = os.path.join(VERIF, "tools", "cxdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "cxdump-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".tmp%d" % os.getpid()
    r = sh(["clang++", "-std=c++17", "-fno-exceptions", "-fno-rtti", "-O1", "-w", "-I" + LLVM + "/include",
            src, "-o", tmp, "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so"])
    if r.returncode:
        raise AnalysisBroken("cannot build cxdump:\n" + r.stdout)
    os.rename(tmp, exe)
    return exe


FLAGS = ["-std=c++20", "-DNDEBUG", "-resource-dir", LLVM + "/lib/clang/18", "-Wno-everything"]


class Program:
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.globals = {}
        self.byq = {}
        self.overriders = {}
        self.files = []
        self.tus = 0

    def finish(self):
        for f in self.functions.values():
            self.byq.setdefault(f["q"], []).append(f)
        direct = {}
        for f in self.functions.values():
            for o in f.get("ov", []):
                direct.setdefault(o, []).append(f["id"])
        for k in list(direct):
            seen, todo = [], list(direct[k])
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.append(x)
                todo += direct.get(x, [])
            self.overriders[k] = seen

    def fn(self, q, nargs=None, pred=None):
        """the unique function with that qualified name"""
        c = [f for f in self.byq.get(q, []) if (nargs is None or len(f["p"]) == nargs) and (pred is None or pred(f))]
        if not c:
            raise AnalysisBroken("anchor vanished: no function %s" % q)
        return c[0]

    def fns(self, q, pred=None):
        return [f for f in self.byq.get(q, []) if pred is None or pred(f)]

    def rec(self, rid):
        r = self.records.get(rid)
        if r is None:
            raise AnalysisBroken("anchor vanished: no class %s" % rid)
        return r

    def all_fields(self, rid):
        """fields of a class and its bases, base fields first"""
        out = []
        r = self.records.get(rid)
        if r is None:
            return out
        for b in r["bases"]:
            out += self.all_fields(b["id"])
        return out + r["fields"]

    def bases(self, rid):
        out, todo = [], [rid]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            r = self.records.get(x)
            if r:
                todo += [b["id"] for b in r["bases"]]
        return out


def inputs():
    srcs = sorted(glob.glob(REPO + "/source/**/*.cpp", recursive=True))
    hdrs = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/source/**/*.h", recursive=True))
    drv = sorted(glob.glob(VERIF + "/driver/*.cpp"))
    return srcs, hdrs, drv


_prog = None


def load():
    global _prog
    if _prog is not None:
        return _prog
    exe = build_tool()
    srcs, hdrs, drv = inputs()
    if not srcs:
        raise AnalysisBroken("no sources under %s/source" % REPO)
    h = hashlib.sha256()
    for f in srcs + hdrs + drv:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    h.update(os.path.basename(exe).encode())
    h.update(repr(FLAGS).encode())
    h.update(open(os.path.abspath(__file__), "rb").read())
    cache = os.path.join(CACHE, "prog-" + h.hexdigest()[:20] + ".pickle")
    if os.path.exists(cache):
        try:
            with open(cache, "rb") as fh:
                _prog = pickle.load(fh)
            return _prog
        except Exception:
            pass
    work = os.path.join(CACHE, "work-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)

    # development only: parsed units shared between variants of the library
    shared = os.environ.get("COCPP_TUCACHE")

    def unit_key(src):
        rel = src.replace(REPO, "").replace("/", "_")
        dep = os.path.join(shared, rel + ".dep")
        if not os.path.exists(dep):
            r = sh(["clang++", "-MM", "-I" + REPO + "/include", src] + FLAGS)
            with open(dep, "w") as fh:
                fh.write("\n".join(x.replace(REPO, "@") for x in r.stdout.replace("\\", " ").split()[1:]))
        k = hashlib.sha256(os.path.basename(exe).encode())
        for f in open(dep).read().split():
            f = f.replace("@", REPO)
            k.update(open(f, "rb").read() if os.path.exists(f) else b"-")
        return os.path.join(shared, k.hexdigest()[:24] + ".json")

    def one(i_src):
        i, src = i_src
        if shared:
            key = unit_key(src)
            if os.path.exists(key):
                with open(key) as fh:
                    return json.load(fh)
        out = os.path.join(work, "%d.json" % i)
        r = sh([exe, REPO, out, src, VERIF + "/driver", "--", "-I" + REPO + "/include"] + FLAGS, cwd=work)
        if r.returncode or not os.path.exists(out):
            raise AnalysisBroken("cannot parse %s:\n%s" % (src, r.stdout[-3000:]))
        with open(out) as fh:
            d = json.load(fh)
        if shared:
            import shutil
            shutil.move(out, key)
            return d
        os.unlink(out)
        return d

    p = Program()
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            for d in ex.map(one, enumerate(drv + srcs)):
                p.tus += 1
                for f in d["functions"]:
                    if f["id"] not in p.functions:
                        f["tu"] = p.tus
                        p.functions[f["id"]] = f
                for r in d["records"]:
                    old = p.records.get(r["id"])
                    if old is None or len(r.get("ops", [])) > len(old.get("ops", [])):
                        p.records[r["id"]] = r
                for g in d["globals"]:
                    p.globals[g["id"]] = g
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)
    p.files = srcs + hdrs
    p.finish()
    _prog = p
    try:
        for old in glob.glob(CACHE + "/prog-*.pickle"):
            os.unlink(old)
        tmp = cache + ".tmp%d" % os.getpid()
        with open(tmp, "wb") as fh:
            pickle.dump(p, fh, protocol=4)
        os.rename(tmp, cache)
    except OSError:
        pass
    return p


if __name__ == "__main__":
    p = load()
    print("functions %d records %d globals %d tus %d" % (len(p.functions), len(p.records), len(p.globals), p.tus))
