"""Turn bug specifications into /verif/seeded/<id>/ after confirming each one in a scratch copy of /repo.

usage: plant.py SPECFILE [id...]     (spec file: python, defines B = [dict(id, property, edits, needs, breaks, demo)])
Confirms: edits apply; demo passes without and fails with the change; the stable tests pass with it. Then runs
the property's quick check on the copy and prints whether it is caught. Needs /repo clean.
"""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           MPLCONFIGDIR="/opt/vp/mplconfig", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, env=ENV, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(b):
    root = "/tmp/plant_w/" + b["id"]
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    copy = root + "/repo"
    shutil.copytree("/repo", copy, symlinks=True)
    out = root + "/seed"
    os.makedirs(out)
    open(out + "/demo.py", "w").write(b["demo"])
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    res = {}
    rc, o = sh(["bash", out + "/demo.sh"], copy)
    if rc:
        return b["id"], "demo fails on unchanged tree: " + o[-400:], None
    for f, old, new in b["edits"]:
        s = open(copy + "/" + f).read()
        if s.count(old) != 1:
            return b["id"], "edit matches %d times in %s: %r" % (s.count(old), f, old[:60]), None
        open(copy + "/" + f, "w").write(s.replace(old, new))
    rc, d = sh(["git", "diff"], copy)
    open(out + "/patch.diff", "w").write(d)
    # original lines only
    rc, o = sh(["bash", out + "/demo.sh"], copy)
    if rc == 0:
        return b["id"], "demo passes with the change", None
    rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300", "-W", "ignore::DeprecationWarning",
                "-o", "junit_family=xunit2", "--junitxml=" + root + "/j.xml", "pyrtlib"], copy)
    ok = set()
    for tc in ET.parse(root + "/j.xml").getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(tc.get("classname") + "::" + tc.get("name"))
    miss = STABLE - ok
    if miss:
        return b["id"], "tests fail: %s" % sorted(miss)[:4], None
    dst = "/verif/seeded/" + b["id"]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    res = check(b["property"], copy)
    shutil.rmtree(root, ignore_errors=True)
    return b["id"], "kept", res


def check(prop, copy, tier="quick"):
    env = dict(ENV, PYRTLIB_REPO=copy, VERIF_SEED="1", VERIF_TIER=tier, MC_EVIDENCE_DIR=copy + "/ev")
    rc, o = sh([PY, "/verif/run_check.py", prop], "/verif", env, 1800)
    v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    return "%s rc=%d %s" % ("CAUGHT" if rc == 1 and any("property=" + prop in l for l in v) else "MISSED", rc, (v or o.splitlines()[-1:] or [""])[0][:200])


if __name__ == "__main__":
    B = runpy.run_path(sys.argv[1])["B"]
    ids = sys.argv[2:]
    B = [b for b in B if not ids or b["id"] in ids]
    with cf.ThreadPoolExecutor(int(os.environ.get("N", "7"))) as ex:
        for r in cf.as_completed([ex.submit(one, b) for b in B]):
            i, st, res = r.result()
            print(i, "|", st, "|", res, flush=True)
