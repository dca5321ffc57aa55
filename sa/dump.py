"""Runs the rustc driver over /repo's current working tree for one feature
configuration and returns the parsed dump."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, ".target")
DRIVER_TARGET = os.path.join(TARGET, "driver")
DRIVER = os.path.join(DRIVER_TARGET, "release", "vdriver")
CHECK_TARGET = os.path.join(TARGET, "check")
DUMPS = os.path.join(TARGET, "dumps")

CONFIGS = {
    "none": ["--no-default-features"],
    "default": [],
    "serde": ["--no-default-features", "--features", "serde"],
    "danger": ["--no-default-features", "--features", "danger"],
    "alloc": ["--no-default-features", "--features", "alloc"],
    "std": ["--no-default-features", "--features", "std"],
    "ristretto": ["--no-default-features", "--features", "ristretto255"],
    "all": ["--all-features"],
    "release": ["--all-features", "--release"],
    "test": ["--all-features", "--profile", "test"],
}


FEATURES = {  # of the fixed configurations, with what they imply
    "none": set(),
    "default": {"ristretto255", "ristretto255-ciphersuite"},
    "serde": {"serde"},
    "danger": {"danger"},
    "alloc": {"alloc"},
    "std": {"alloc", "std"},
    "ristretto": {"ristretto255"},
}
EVERY = {"ristretto255", "ristretto255-ciphersuite", "serde", "danger", "alloc", "std"}


def features(config):
    return FEATURES.get(config, EVERY)


# ---- configurations added because a cfg predicate in the source tells them apart
def _predicates(text):
    text = re.sub(r"//[^\n]*", "", text)
    for m in re.finditer(r"\bcfg(?:_attr)?!?\s*\(", text):
        toks = re.findall(r'"[^"]*"|[\w-]+|[(),=]', text[m.end():m.end() + 600])
        try:
            yield _pred(toks)
        except (IndexError, ValueError):
            continue


def _pred(toks):
    t = toks.pop(0)
    if not re.match(r"\w", t):
        raise ValueError(t)
    if toks and toks[0] == "(":
        toks.pop(0)
        l = []
        while toks[0] != ")":
            l.append(_pred(toks))
            if toks[0] == ",":
                toks.pop(0)
        toks.pop(0)
        return (t, l)
    if toks and toks[0] == "=":
        toks.pop(0)
        return ("=", t, toks.pop(0).strip('"'))
    return ("=", t, None)


KNOWN_KEYS = {"feature", "test", "doc", "docsrs", "doctest", "debug_assertions", "clippy", "rustfmt", "rust_analyzer"}
INERT = {"allow", "warn", "deny", "forbid", "expect", "doc", "inline", "cold", "must_use", "track_caller", "deprecated"}


def _keys(p):
    if p[1] and isinstance(p[1], list):
        return set().union(*[_keys(x) for x in p[1]])
    return {p[1]} if p[0] == "=" and p[1] not in ("true", "false") else set()


def strange_conditions():
    """(file, line, keys, all files): conditional compilation on something other
    than the features and the profile, which no configuration analysed here sets."""
    out, n = [], 0
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".rs") or "/tests" in os.path.join(base, f):
                continue
            with open(os.path.join(base, f), errors="replace") as fh:
                text = re.sub(r"//[^\n]*", "", fh.read())
            n += 1
            for m in re.finditer(r"\b(cfg|cfg_attr)(!?)\s*\(", text):
                toks = re.findall(r'"[^"]*"|[\w-]+|[(),=]', text[m.end():m.end() + 600])
                try:
                    keys = _keys(_pred(toks)) - KNOWN_KEYS
                except (IndexError, ValueError):
                    continue
                if not keys:
                    continue
                if m.group(1) == "cfg_attr" and len(toks) > 1 and toks[0] == "," and toks[1] in INERT:
                    continue
                if re.match(r"[^\]]*\]\s*(\w+::)*compile_error!", text[m.end():]):
                    continue
                out.append((os.path.relpath(os.path.join(base, f), REPO), text[:m.start()].count("\n") + 1, sorted(keys)))
    return out, n


def _atoms(p):
    if p[0] == "=":
        return {p[2]} if p[1] == "feature" else {p[1]} if p[1] == "debug_assertions" else set()
    return set().union(*[_atoms(x) for x in p[1]]) if p[1] else set()


def _combos():
    for r in ([], ["ristretto255"], ["ristretto255", "ristretto255-ciphersuite"]):
        for s in ([], ["serde"]):
            for d in ([], ["danger"]):
                for a in ([], ["alloc"], ["alloc", "std"]):
                    yield set(r + s + d + a)


def _add(fs, release):
    n = "-".join(["with"] + sorted(fs) + ["release"] * release)
    CONFIGS[n] = ["--no-default-features"] + (["--features", ",".join(sorted(fs))] if fs else []) + ["--release"] * release
    FEATURES[n] = set(fs)


def _realised():
    return [(features(n), "--release" not in CONFIGS[n]) for n in CONFIGS if n != "test"]


def extend():
    """For every cfg predicate over several conditions: each combination of
    outcomes some build can have gets a configuration."""
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".rs") or "/tests" in os.path.join(base, f):
                continue
            with open(os.path.join(base, f), errors="replace") as fh:
                preds = list(_predicates(fh.read()))
            for p in preds:
                at = sorted(_atoms(p) & (EVERY | {"debug_assertions"}))
                if not 1 <= len(at) <= 4:
                    continue
                sig = lambda fs, dbg: tuple((dbg if a == "debug_assertions" else a in fs) for a in at)
                for dbg in (True, False) if "debug_assertions" in at else (True,):
                    for fs in sorted(_combos(), key=lambda x: (len(x), sorted(x))):
                        if sig(fs, dbg) not in {sig(*c) for c in _realised()} and len(CONFIGS) < 24:
                            _add(fs, not dbg)


def extend_all():
    """Every combination of features."""
    for fs in _combos():
        if (fs, True) not in _realised():
            _add(fs, False)


class BuildError(Exception):
    pass


def base_env():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTC_WRAPPER"] = ""
    env.pop("RUSTFLAGS", None)
    return env


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(
            ["rustc", "+nightly", "--print", "sysroot"], env=base_env(), text=True
        ).strip()
    return _sysroot


def _digest(paths):
    m = hashlib.sha256()
    for p in paths:
        m.update(p.encode() + b"\0")
        if os.path.exists(p):
            with open(p, "rb") as f:
                m.update(f.read())
        m.update(b"\0")
    return m.hexdigest()


def _driver_srcs():
    d = os.path.join(VERIF, "driver")
    return [os.path.join(d, p) for p in ("src/main.rs", "src/json.rs", "Cargo.toml", "Cargo.lock")]


def driver_stamp():
    return _digest(_driver_srcs())


def ensure_driver():
    stamp = os.path.join(DRIVER_TARGET, "stamp")
    want = driver_stamp()
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    r = subprocess.run(
        ["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", DRIVER_TARGET],
        cwd=os.path.join(VERIF, "driver"),
        env=base_env(),
        capture_output=True,
        text=True,
    )
    if r.returncode != 0:
        raise BuildError("driver does not build:\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(driver_stamp())


def repo_files():
    """Everything the library target is built from."""
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        out += [os.path.join(base, f) for f in sorted(files)]
    out += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "README.md", "build.rs", ".cargo/config.toml")]
    return out


def repo_stamp():
    return _digest(repo_files())


def ensure_lock():
    """Cargo.lock is ignored by git in /repo; put it back when it is missing."""
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)


def dump(config, fresh=False):
    """The dump of /repo's current source: taken anew unless one was already
    taken from byte-identical source by the same driver."""
    ensure_driver()
    ensure_lock()
    key = hashlib.sha256((driver_stamp() + repo_stamp() + config + " ".join(CONFIGS[config])).encode()).hexdigest()[:32]
    cached = os.path.join(DUMPS, config + "-" + key + ".json")
    if not fresh and os.path.exists(cached):
        try:
            with open(cached) as f:
                return json.load(f)
        except ValueError:
            pass
    d = take(config)
    os.makedirs(DUMPS, exist_ok=True)
    for old in glob.glob(os.path.join(DUMPS, config + "-*.json")):
        os.unlink(old)
    tmp = cached + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(d, f)
    os.replace(tmp, cached)
    return d


def take(config):
    env = base_env()
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    fd, out = tempfile.mkstemp(prefix="vdump-", suffix=".json")
    os.close(fd)
    os.unlink(out)
    env["VDRIVER_OUT"] = out
    # The deciding step looks at the current source: forget what cargo
    # remembers about the crate itself (dependencies stay built).
    for prof in ("debug", "release"):
        for f in glob.glob(os.path.join(CHECK_TARGET, prof, ".fingerprint", "voprf-*")) + [
            os.path.join(CHECK_TARGET, prof, "build", "voprf")
        ]:
            shutil.rmtree(f, ignore_errors=True)
    try:
        r = subprocess.run(
            ["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", CHECK_TARGET]
            + CONFIGS[config],
            cwd=REPO,
            env=env,
            capture_output=True,
            text=True,
        )
        if r.returncode != 0:
            raise BuildError(f"configuration {config} does not compile:\n" + r.stderr[-6000:])
        if not os.path.exists(out):
            raise BuildError(f"driver wrote no dump for {config}:\n" + r.stderr[-3000:])
        with open(out) as f:
            d = json.load(f)
        d["attrs"] = [a for a in d["attrs"] if "DocComment" not in a]
        return d
    finally:
        if os.path.exists(out):
            os.unlink(out)


extend()

if __name__ == "__main__":
    d = dump(sys.argv[1])
    json.dump(d, open(sys.argv[2], "w"))
    print({k: (len(v) if hasattr(v, "__len__") else v) for k, v in d.items()})
