"""Development aid (no registered command uses it): runs checks on scratch copies of /repo with
one replacement each; 'break' mutants must be reported, 'keep' ones must stay quiet.
usage: mutants.py [check-id ...]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutant_table import MUTANTS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(m):
    checks, kind, reps = m
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    shutil.copytree("/repo/src", d + "/src")
    res = []
    try:
        for f, old, new in reps:
            p = d + "/src/" + f
            s = open(p).read()
            if old not in s:
                return [(m, "NOTFOUND " + old[:60])]
            open(p, "w").write(s.replace(old, new, 1))
        shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        for c in checks.split():
            r = subprocess.run([sys.executable, d + "/verif/engine/%s.py" % c.lower()], env=dict(os.environ, VP_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = r.returncode == (1 if kind == "break" else 0)
            res.append((m, ("ok  " if ok else "FAIL") + " %s rc=%d %s | %s" % (c, r.returncode, kind, r.stdout.strip().split("\n")[-2 if r.returncode == 1 and r.stdout.count("\n") > 1 else -1][:230])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


if __name__ == "__main__":
    sel = [x.upper() for x in sys.argv[1:]]
    ms = [m for m in MUTANTS if not sel or any(c in sel for c in m[0].split())]
    only = os.environ.get("ONLY")   # substring of a replacement
    if only:
        ms = [m for m in ms if any(only in r[1] + r[2] for r in m[2])]
    with ThreadPoolExecutor(7) as ex:
        for rs in ex.map(run, ms):
            for m, t in rs:
                if t.startswith("ok") and "-v" not in sys.argv and os.environ.get("VERB") is None:
                    print(t[:130]); continue
                print(t, "::", m[2][0][1][:50].replace("\n", " "), "=>", m[2][0][2][:70].replace("\n", " "))
