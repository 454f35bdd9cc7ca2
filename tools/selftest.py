#!/usr/bin/env python3
"""Sensitivity test of the checks (development tool, not part of any check).

selftest/*.txt hold small edits of the library; each is applied to a scratch copy, the
checks are run on the copy, and the outcome is compared with what the edit should give.

  == <name> : <property ...>          the edit breaks these properties
  == <name> : quiet                   the edit preserves behaviour
  @ <file>                            file to edit
  - <old text, one or more lines>
  + <new text>

usage: selftest.py [-v] [-f=file] [-p=C01,C02] [name-part ...]     -p: properties run for edits that should stay quiet
"""
import concurrent.futures as cf
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

BASE = os.environ.get("COCPP_SELFTEST_BASE", "/repo")
TU = "/tmp/cocpp-self-tu"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def parse():
    out = []
    for f in sorted(glob.glob(V + "/selftest/*.txt")):
        cur = None
        for line in open(f).read().split("\n"):
            m = re.match(r"== (\S+) : (.*)", line)
            if m:
                cur = {"name": m.group(1), "file": os.path.basename(f)[:-4], "want": m.group(2).split(), "edits": []}
                out.append(cur)
            elif cur is None or line.startswith("#"):
                continue
            elif line.startswith("@ "):
                cur["edits"].append([line[2:].strip(), [], []])
                mode = None
            elif line[:1] in "-+" and line:
                e = cur["edits"][-1]
                if line[0] == "-":
                    if e[2]:
                        cur["edits"].append([e[0], [], []])
                        e = cur["edits"][-1]
                    e[1].append(line[2:])
                else:
                    e[2].append(line[2:])
    return out


def norm_find(text, old):
    """find old in text ignoring leading white space of lines"""
    pat = r"\n?".join(r"[ \t]*" + re.escape(l.strip()) + r"[ \t]*" for l in old)
    pat = r"[ \t]*\n".join(r"[ \t]*" + re.escape(l.strip()) for l in old)
    return [m for m in re.finditer(pat, text)]


def one(m, tests, props):
    d = tempfile.mkdtemp(prefix="cocpp-self.")
    try:
        repo = d + "/repo"
        if tests:
            shutil.copytree(BASE, repo, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        else:
            os.makedirs(repo)
            for s in ("source", "include"):
                shutil.copytree(BASE + "/" + s, repo + "/" + s)
        for f, old, new in m["edits"]:
            p = repo + "/" + f
            t = open(p).read()
            hits = norm_find(t, old)
            if len(hits) != 1:
                return m, "EDIT-BROKEN %s: %d places" % (f, len(hits)), ""
            h = hits[0]
            t = t[:h.start()] + "\n".join(new) + t[h.end():]
            open(p, "w").write(t)
        env = dict(os.environ, COCPP_REPO=repo, COCPP_CACHE=d, COCPP_EVIDENCE=d + "/ev", COCPP_TUCACHE=TU)
        run = props if m["want"] == ["quiet"] else sorted(set(m["want"]))
        got, log = {}, ""
        for p in run:
            r = subprocess.run([sys.executable, V + "/run.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            got[p] = r.returncode
            if r.returncode:
                log += r.stdout
        if m["want"] == ["quiet"]:
            bad = {p: c for p, c in got.items() if c}
            res = "ok" if not bad else "FALSE-ALARM %s" % bad
        else:
            miss = [p for p in m["want"] if got[p] != 1]
            res = "ok" if not miss else "MISSED %s" % {p: got[p] for p in miss}
        return m, res, log
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    verbose = "-v" in args
    files = [a[3:] for a in args if a.startswith("-f=")]
    names = [a for a in args if not a.startswith("-")]
    from checks import registry
    props = ([a[3:].split(",") for a in args if a.startswith("-p=")] or [sorted(registry.CHECKS)])[0]
    ms = [m for m in parse() if (not names or any(n in m["name"] for n in names)) and (not files or m["file"] in files)]
    bad = 0
    os.makedirs(TU, exist_ok=True)
    with cf.ThreadPoolExecutor(7) as ex:
        for m, res, log in ex.map(lambda m: one(m, False, props), ms):
            print("%-34s %-16s %s" % (m["name"], " ".join(m["want"]), res), flush=True)
            if res != "ok" or verbose:
                print("\n".join("    " + x for x in log.split("\n")[-60:]))
            bad += res != "ok"
    print("%d edits, %d unexpected" % (len(ms), bad))
    return bad > 0


if __name__ == "__main__":
    sys.exit(main())
