"""Development aid: writes seeded/<id>/ from seed_defs.py and confirms each in a scratch copy
(/tmp/w/sr, built): builds, passes the tests, demo 0 without / nonzero with the patch; then runs the check."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/w/sr"
ENV = dict(os.environ, CC="/usr/bin/gcc-11", CXX="/usr/bin/g++-11")


def sh(cmd, cwd=S, env=None, t=600):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(d):
    sh("git -C /tmp/w/sr checkout -q -- . && git -C /tmp/w/sr fetch -q /repo HEAD && git -C /tmp/w/sr reset -q --hard FETCH_HEAD")
    out = V + "/seeded/" + d["id"]
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for f, t in d["files"].items():
        open(out + "/" + f, "w").write(t)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]}, open(out + "/meta.json", "w"), indent=1)
    for f, old, new in d["reps"]:
        p = S + "/src/" + f
        s = open(p).read()
        assert old in s, (d["id"], "NOT FOUND", old)
        open(p, "w").write(s.replace(old, new, 1))
    rc, diff = sh("git diff")
    open(out + "/patch.diff", "w").write(diff)
    sh("git checkout -q -- .")
    demo = "/tmp/w/demo-" + d["id"]
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(out, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    rc, o = sh("ninja -C _build >/dev/null 2>&1; bash %s/demo.sh" % demo)
    res = ["clean demo %s" % ("ok" if rc == 0 else "FAILS rc=%d %s" % (rc, o[-300:]))]
    rc, o = sh("git apply %s/patch.diff && ninja -C _build" % out)
    if rc:
        return d["id"] + ": BUILD FAILS " + o[-600:]
    rc, o = sh("ctest --test-dir _build -j8 --timeout 60 -E '^algorithm_integer_operations$' 2>&1 | tail -8")
    res.append("tests %s" % ("ok" if "100% tests passed" in o else "FAIL " + o[-300:]))
    rc, o = sh("bash %s/demo.sh" % demo, t=300)
    res.append("patched demo %s" % ("ok rc=%d" % rc if rc else "PASSES"))
    for c in d.get("checks", [d["property"]]):
        rc, o = sh("python3 %s/engine/%s.py" % (V, c.lower()), cwd=V, env=dict(os.environ, VP_REPO=S), t=900)
        res.append("%s %s" % (c, "caught" if rc == 1 and "VIOLATION property=" + c in o else "MISSED rc=%d %s" % (rc, o[-200:])))
    sh("git checkout -q -- .")
    shutil.rmtree(demo, ignore_errors=True)
    return d["id"] + ": " + "; ".join(res)


if __name__ == "__main__":
    from seed_defs import SEEDS
    for d in SEEDS:
        if len(sys.argv) < 2 or d["id"] in sys.argv[1:] or d["property"] in sys.argv[1:]:
            print(one(d), flush=True)
