"""Common machinery of the checks: compile /repo's current sources to LLVM bitcode, export
functions with irx, collect findings, write evidence, report."""
import atexit
import functools
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
THOROUGH = os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
CLANG = "/usr/lib/llvm-18/bin/clang++"
FLAGS = ["-std=c++11", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-g", "-DNDEBUG",
         "-Wno-everything", "-fgnuc-version=10.2.0", "-pthread", "-I", SRC]
MPI = ["-DMPI_SUPPORT", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include"]
if os.path.isdir("/usr/lib/gcc/x86_64-linux-gnu/11"):
    FLAGS += ["--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/11"]


class Broken(Exception):
    """the analysis itself cannot give an answer (vanished anchor, tool failure)"""


_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vp-")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-1500:]))
    return r.stdout


def irx():
    src = os.path.join(VERIF, "engine", "irx.cpp")
    d = os.path.join(VERIF, "build")
    exe = os.path.join(d, "irx")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(d, exist_ok=True)
    new = exe + ".%d" % os.getpid()
    sh(["g++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", new,
        "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.rename(new, exe)
    return exe


def units():
    """the translation units of the program (not the tests)"""
    out = []
    for f in sorted(os.listdir(SRC)):
        if f.endswith(".cpp"):
            out.append(os.path.join(SRC, f))
    if len(out) < 20:
        raise Broken("only %d translation units under %s" % (len(out), SRC))
    return out


def compile_units(files, mpi=False, extra=()):
    """-> list of bitcode files"""
    d = tempfile.mkdtemp(prefix="bc-", dir=tmp())

    def one(f):
        o = os.path.join(d, os.path.basename(f) + ".bc")
        sh([CLANG] + FLAGS + (MPI if mpi else []) + list(extra) + ["-emit-llvm", "-c", f, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))


def harness(text, name="harness"):
    p = os.path.join(tmp(), name + ".cpp")
    with open(p, "w") as f:
        f.write(text)
    return p


def export(bcs, roots=(), reach=False, inline=False, keep=(), lib=(), all=False, raw=False):
    out = os.path.join(tempfile.mkdtemp(prefix="ir-", dir=tmp()), "ir.json")
    cmd = [irx(), "--src", SRC, "--out", out]
    for r in roots:
        cmd += ["--root", r]
    for r in keep:
        cmd += ["--keep", r]
    for r in lib:
        cmd += ["--lib", r]
    if reach:
        cmd.append("--reach")
    if inline:
        cmd.append("--inline")
    if all:
        cmd.append("--all")
    if raw:
        cmd.append("--raw")
    sh(cmd + list(bcs))
    return out


def undefined(path, stubs):
    """functions of the repository that are called but have no body in this program"""
    d = json.load(open(path))
    have = {f["name"] for f in d["functions"]}
    out = set()
    for f in d["functions"]:
        for b in f["blocks"]:
            for v in b.values():
                if isinstance(v, list):
                    for i in v:
                        if isinstance(i, dict) and i.get("cname") and i["cname"] not in have:
                            dem = i.get("cdem", i["cname"])
                            if "panda::" in dem and not any(re.search(r, dem) for r in stubs):
                                out.add(dem)
    return out


def link(sources, files, stubs=(), roots=(r"^vp_",)):
    """program of the given harness sources and units of the repository; where functions are missing
    (moved to another unit) all other units are added"""
    have = [os.path.join(SRC, f) for f in files]
    bcs = compile_units(list(sources) + [f for f in have if os.path.exists(f)])
    o = export(bcs, roots=list(roots), reach=True)
    if undefined(o, stubs):
        rest = [f for f in units() if f not in have]
        try:
            o = export(bcs + compile_units(rest), roots=list(roots), reach=True)
        except Broken:
            pass
    return o


def rel(path):
    return os.path.relpath(path, REPO) if path and path.startswith(REPO + "/") else path


class Check:
    def __init__(self, pid, technique, level="other"):
        self.pid = pid
        self.level = level
        self.technique = technique
        self.t0 = time.time()
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.undecided = []
        self.known = self.load_known()

    def load_known(self):
        out = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3).strip()))
        return out

    def violation(self, key, where, text):
        """key identifies the instance (stable across line shifts)"""
        v = {"key": key, "where": where, "what": text}
        if not any(x["key"] == key and x["where"] == where and x["what"] == text for x in self.violations):
            self.violations.append(v)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        known = []
        new = []
        for v in self.violations:
            k = [t for key, t in self.known if key == v["key"]]
            (known if k else new).append(v)
        cov = dict(self.coverage)
        cov.setdefault("explanation", self.technique)
        if self.undecided:
            cov["undecided"] = self.undecided[:50]
        cov["known_findings"] = len(known)
        ev = {"property": self.pid, "tier": ("thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, v["where"], v["what"]))
        if new:
            p = os.path.join(VERIF, "evidence", self.pid + ".violation.json")
            with open(p, "w") as f:
                json.dump(new, f, indent=1)
            for v in new[:20]:
                print("%s: %s [%s]" % (v["where"], v["what"], v["key"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            sys.exit(1)
        p = os.path.join(VERIF, "evidence", self.pid + ".violation.json")
        if os.path.exists(p):
            os.remove(p)
        print("%s: held; %s" % (self.pid, ", ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, int))))
        sys.exit(0)


PARTIAL = []        # findings of the case under way


class Late(BaseException):
    pass


def guard(extra=0, quick=150):
    """a case the analysis itself fails on is undecided, not an alarm"""
    def deco(fn):
        @functools.wraps(fn)
        def f(j):
            def late(*_):
                raise Late("case takes too long")
            signal.signal(signal.SIGALRM, late)
            signal.alarm(10 * quick if THOROUGH else quick)
            PARTIAL.clear()
            try:
                r = fn(j)
                return (list(r[0]),) + tuple(r[1:])
            except (Exception, Late) as e:
                if os.environ.get("VP_DEBUG") and not isinstance(e, Late):
                    raise
                return (list(PARTIAL), ["%s: %s" % (type(e).__name__, e)], 0) + (0,) * extra
            finally:
                signal.alarm(0)
        return f
    return deco


def main(pid, technique, fn, level="other"):
    c = Check(pid, technique, level)
    try:
        fn(c)
    except Broken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s: internal error" % pid)
        sys.exit(3)
    c.finish()
