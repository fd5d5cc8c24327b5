"""Run the quick check of every seeded bug's property on a copy of /repo with the bug applied.
usage: seedcheck.py [id...]  (prints CAUGHT/MISSED)"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant


def one(i):
    d = "/verif/seeded/" + i
    root = "/tmp/plant_w/s-" + i
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    shutil.copytree("/repo", root + "/repo", symlinks=True)
    r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=root + "/repo", capture_output=True, text=True)
    if r.returncode:
        return i, "does not apply: " + r.stderr[:200]
    res = plant.check(json.load(open(d + "/meta.json"))["property"], root + "/repo")
    shutil.rmtree(root, ignore_errors=True)
    return i, res


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
    with cf.ThreadPoolExecutor(3) as ex:
        for r in cf.as_completed([ex.submit(one, i) for i in ids]):
            print(*r.result(), sep=" | ", flush=True)
