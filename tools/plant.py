"""plant.py FILE.py [ID ...] : confirm the planted bugs described in FILE.py and keep the confirmed ones in seeded/.
A bug: dict(id, prop, edits=[(file, old, new)], needs, breaks, demo). Steps per bug, on a scratch copy of /repo: the edit
changes original lines only, the demo passes without and fails with it, the stable tests pass, and the property's check
is run on the patched copy (its outcome is only printed: a bug is kept whether or not it is caught)."""
import sys, os, subprocess, json, shutil, runpy, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANT_SCRATCH", "/tmp/plant")
ENV = ". /opt/vp/env.sh; "
DEMO = """#!/bin/bash
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
timeout 250 python -W ignore "$D/demo.py" > /dev/null
"""
PRE = "import sys, os\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n"


def sh(cmd, cwd, t=900):
    try:
        r = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def base():
    return sh("git rev-list --max-parents=0 HEAD", "/repo")[1].strip()


def one(b):
    d = os.path.join(S, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True)
    out = {"id": b["id"], "prop": b["prop"]}
    try:
        for f, a, c in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) != 1:
                return dict(out, bad="edit matches %d times in %s: %r" % (s.count(a), f, a[:60]))
            open(p, "w").write(s.replace(a, c))
        diff = sh("git diff", d)[1]
        # original lines only
        B = base()
        for f in {e[0] for e in b["edits"]}:
            bl = sh("git blame -l -s HEAD -- %s" % f, d)[1].splitlines()
            h = sh("git diff -U0 -- %s" % f, d)[1]
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", h, re.M):
                n0, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(n0, n0 + n):
                    if not bl[k - 1].lstrip("^").startswith(B[:39]):
                        return dict(out, bad="line %d of %s is not an original line: %s" % (k, f, bl[k - 1][41:]))
        dd = os.path.join(S, b["id"] + ".demo")
        shutil.rmtree(dd, ignore_errors=True)
        os.makedirs(dd)
        open(dd + "/demo.sh", "w").write(DEMO)
        os.chmod(dd + "/demo.sh", 0o755)
        open(dd + "/demo.py", "w").write(PRE + b["demo"].lstrip("\n"))
        r0, o0 = sh("bash %s/demo.sh" % dd, "/repo", 300)
        r1, o1 = sh("bash %s/demo.sh" % dd, d, 300)
        out["demo"] = (r0, r1)
        if r0 != 0:
            return dict(out, bad="demo fails on the unchanged tree: " + o0[-600:])
        if r1 == 0:
            return dict(out, bad="demo passes with the change")
        out["why"] = o1.strip().splitlines()[-1][:150] if o1.strip() else ""
        if "--notest" not in sys.argv:
            c = "python -m pytest -q --tb=no -p no:cacheprovider --randomly-seed=0 --randomly-dont-reorganize "
            rt, ot = sh(ENV + "%s -n 2 --ignore=tests/metrics/test_metric_memory.py --ignore=tests/metrics/test_metric_time.py "
                        "tests -rf; %s -p no:xdist tests/metrics/test_metric_memory.py -rf" % (c, c), d)
            st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            failed = [x.split("::")[-1].split(" ")[0] for x in ot.splitlines() if x.startswith(("FAILED", "ERROR"))]
            hit = [s for s in st if s.split("::")[-1] in failed and any(
                s.split("::")[0].split(".")[-2] in x for x in ot.splitlines() if x.startswith(("FAILED", "ERROR")))]
            if hit or "passed" not in ot:
                return dict(out, bad="stable tests fail: %s" % (hit or ot[-300:]))
        if "--nocheck" not in sys.argv:
            rc, oc = sh("VERIF_REPO=%s VERIF_EVIDENCE=%s ./check %s" % (d, dd, b["prop"]), V)
            v = [l for l in oc.splitlines() if l.startswith("VIOLATION property=%s" % b["prop"])]
            out["check"] = "CAUGHT" if rc == 1 and v else "MISSED rc=%d %s" % (rc, oc[-300:] if rc != 0 else "")
            cl = [l for l in oc.splitlines() if "clause" in l or "FAIL" in l]
            out["clauses"] = cl[0][:140] if cl else ""
        k = os.path.join(V, "seeded", b["id"])
        os.makedirs(k, exist_ok=True)
        open(k + "/patch.diff", "w").write(diff)
        shutil.copy(dd + "/demo.sh", k)
        shutil.copy(dd + "/demo.py", k)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(k + "/meta.json", "w"), indent=1)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(os.path.join(S, b["id"] + ".demo"), ignore_errors=True)


if __name__ == "__main__":
    ar = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = runpy.run_path(ar[0])["BUGS"]
    if ar[1:]:
        bugs = [b for b in bugs if b["id"] in ar[1:]]
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "3"))) as ex:
        for r in ex.map(one, bugs):
            print(json.dumps(r), flush=True)
