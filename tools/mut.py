"""Development aid: applies each edit of a corpus file to a scratch copy of
/repo, builds (and with --test runs the stable tests), runs all checks on it
and prints which alarm. usage: mut.py CORPUS [--test] [-j N] [name...]"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = "/tmp/mw"


def prep(k):
    d = os.path.join(ROOT, str(k))
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "target", "/repo/", d + "/repo/"]) if shutil.which("rsync") else None
    if not shutil.which("rsync"):
        shutil.rmtree(d + "/repo/src", ignore_errors=True)
        os.makedirs(d + "/repo", exist_ok=True)
        for n in os.listdir("/repo"):
            if n not in (".git", "target"):
                s = os.path.join("/repo", n)
                (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, "repo", n))
        subprocess.call(["git", "init", "-q", d + "/repo"])
    v = d + "/verif"
    os.makedirs(v, exist_ok=True)
    for n in ("sa", "tools", "driver"):
        shutil.rmtree(os.path.join(v, n), ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, n), os.path.join(v, n), ignore=shutil.ignore_patterns("__pycache__", "target"))
    shutil.copy(os.path.join(VERIF, "known-findings.json"), v)
    if not os.path.exists(v + "/.target"):
        subprocess.check_call(["cp", "-a", VERIF + "/.target", v + "/.target"])
    return d


def run(d, name, edits, test):
    repo = d + "/repo"
    out = ["== " + name]
    touched = {}
    try:
        if isinstance(edits, str):
            p = subprocess.run(["patch", "-p1", "-s", "-i", edits], cwd=repo, capture_output=True, text=True)
            if p.returncode:
                return name, "== %s: patch does not apply %s" % (name, p.stdout)
        else:
            for f, old, new in edits:
                p = os.path.join(repo, "src", f)
                s = open(p).read()
                touched.setdefault(p, s)
                if callable(old):
                    open(p, "w").write(old(s))
                    continue
                if s.count(old) != 1:
                    return name, "== %s: edit matches %d times: %r" % (name, s.count(old), old[:80])
                open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_REPO=repo, CARGO_TERM_COLOR="never")
        if test:
            for fs in ("--all-features", "--no-default-features"):
                r = subprocess.run(["cargo", "test", "--offline", fs, "--target-dir", d + "/tt"], cwd=repo, env=env, capture_output=True, text=True)
                if r.returncode:
                    out.append("  TESTS FAIL %s: %s" % (fs, "\n".join(l for l in (r.stdout + r.stderr).splitlines() if "error" in l or "FAILED" in l or "panicked" in l)[:600]))
        r = subprocess.run([sys.executable, d + "/verif/tools/allchecks.py"], env=env, capture_output=True, text=True)
        out.append(r.stdout.rstrip() + ("\n" + r.stderr[-800:] if r.returncode else ""))
        return name, "\n".join(out)
    finally:
        for n in os.listdir("/repo"):
            if n == "src":
                shutil.rmtree(repo + "/src")
                shutil.copytree("/repo/src", repo + "/src")
            elif n in ("Cargo.toml", "Cargo.lock"):
                shutil.copy("/repo/" + n, repo)


def main():
    a = sys.argv[1:]
    test = "--test" in a
    a = [x for x in a if x != "--test"]
    j = 3
    if "-j" in a:
        i = a.index("-j")
        j = int(a[i + 1])
        del a[i:i + 2]
    if os.path.isdir(a[0]):
        C = {}
        for n in sorted(os.listdir(a[0])):
            p = os.path.join(a[0], n)
            p = os.path.join(p, "patch.diff") if os.path.isdir(p) else p
            if p.endswith(".diff"):
                C[n] = os.path.abspath(p)
    else:
        g = {}
        exec(open(a[0]).read(), g)
        C = g["C"]
    names = [n for n in C if not a[1:] or any(re.search(x, n) for x in a[1:])]
    pool = concurrent.futures.ThreadPoolExecutor(j)
    free = [prep(k) for k in range(min(j, len(names)))]
    lock = threading.Lock()

    def go(n):
        with lock:
            d = free.pop()
        try:
            return run(d, n, C[n], test)
        finally:
            with lock:
                free.append(d)

    for f in concurrent.futures.as_completed([pool.submit(go, n) for n in names]):
        print(f.result()[1], flush=True)


main()
