#!/usr/bin/env python3
"""demos.py [id...]: runs each planted bug's demo on an unchanged and on a
patched scratch copy of /repo, and the repository's tests on the patched one."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
SEED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
W = "/tmp/demos"
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n in os.listdir("/repo"):
        if n not in (".git", "target"):
            (shutil.copytree if os.path.isdir("/repo/" + n) else shutil.copy)("/repo/" + n, d + "/" + n)
def one(i):
    s = os.path.join(SEED, i)
    a, b, t = W + "/" + i + "-a", W + "/" + i + "-b", W + "/" + i + "-s"
    copy(a); copy(b)
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(s, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    run = lambda c, cwd, **k: subprocess.run(c, cwd=cwd, capture_output=True, text=True, **k)
    p = run(["patch", "-p1", "-s", "-i", s + "/patch.diff"], b)
    r = [i, "" if p.returncode == 0 else "PATCH " + p.stdout]
    x = run(["bash", t + "/demo.sh"], a)
    r.append("clean ok" if x.returncode == 0 else "CLEAN FAILS %d: %s" % (x.returncode, (x.stdout + x.stderr)[-600:]))
    x = run(["bash", t + "/demo.sh"], b)
    r.append("caught: " + (x.stdout + x.stderr).strip().split("\n")[-1][-60:] + " | " + "".join(re.findall(r"panicked at.*\n.*", x.stderr))[:160].replace("\n", " ") if x.returncode == 1 else "DEMO %d %s" % (x.returncode, (x.stdout + x.stderr)[-600:]))
    env = dict(os.environ, CARGO_TARGET_DIR=W + "/target-" + str(hash(i) % 3), PROPTEST_RNG_SEED="1", PROPTEST_DISABLE_FAILURE_PERSISTENCE="1")
    for f in ("--all-features", "--no-default-features"):
        x = run(["cargo", "test", "--offline", "--no-fail-fast", f], b, env=env)
        bad = re.findall(r"^test (\S+) ... FAILED", x.stdout, re.M)
        r.append("tests pass" if x.returncode == 0 else "TESTS FAIL %s %s" % (bad, x.stderr[-500:] if not bad else ""))
    for d in (a, b, t): shutil.rmtree(d, ignore_errors=True)
    return r
if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(SEED))
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, ids):
            print("; ".join(map(str, r)), flush=True)
    shutil.rmtree(W, ignore_errors=True)
