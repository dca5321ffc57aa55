"""check.py <property> [--thorough]: decides one property on /repo's current tree."""
import json
import multiprocessing
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import dump as dumper
import known

EVID = os.path.join(dumper.VERIF, "evidence")


def one(prop, name):
    """All obligations of the property in one configuration."""
    import threading
    out = {}

    def go():
        from report import Rep
        rep = Rep(prop, name)
        t0 = time.time()
        try:
            import checks
            cx = checks.Cx(name)
            getattr(checks, "check_" + prop)(cx, rep)
        except BaseException as e:  # fail closed: a construct the analysis cannot read is not shown to hold
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.viol.append(("analysis | %s" % type(e).__name__, "analysis of configuration %s" % name, "%s:%s" % (os.path.basename(tb.filename), tb.name),
                             "the analysis cannot interpret the current source: %s: %s" % (type(e).__name__, str(e)[:600])))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        d = rep.dump()
        d["wall"] = time.time() - t0
        out["r"] = d

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out["r"]


def work(a):
    return one(*a)


def run(prop, tier):
    import checks
    t0 = time.time()
    meta = checks.META[prop]
    if tier == "thorough":
        dumper.extend_all()
    names = list(dumper.CONFIGS)
    if "configs" in meta:
        names = [n for n in names if n in meta["configs"] or ("default" in meta["configs"] and n.startswith("with-"))]
    viol, reports, usable = [], [], []
    fresh = tier == "thorough"
    try:
        for n in names:
            try:
                dumper.dump(n, fresh=fresh)
                usable.append(n)
            except dumper.BuildError as e:
                msg = str(e)
                if "error" in msg and n != "none" and "--all-features" not in dumper.CONFIGS[n] and prop not in ("C20", "C22"):
                    # C22 answers for configurations that stop compiling
                    continue
                viol.append(("build | " + n, "configuration " + n, "Cargo.toml", msg[-1500:]))
    except Exception as e:
        traceback.print_exc()
        viol.append(("analysis | " + type(e).__name__, "dumping the current tree", "", str(e)[-1500:]))
    with multiprocessing.get_context("fork").Pool(min(8, max(1, len(usable))), maxtasksperchild=1) as pool:
        reports = pool.map(work, [(prop, n) for n in sorted(usable, key=lambda n: ("all", "release", "test", "std", "alloc").index(n) if n in ("all", "release", "test", "std", "alloc") else 9)], chunksize=1)
    if prop in checks.GLOBAL:
        from report import Rep
        rep = Rep(prop, "across configurations")
        try:
            checks.GLOBAL[prop](reports, rep)
        except Exception as e:
            rep.viol.append(("analysis | " + type(e).__name__, "cross-configuration analysis", "", "%s: %s" % (type(e).__name__, e)))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        reports.append(rep.dump())
    for r in reports:
        r.pop("data", None)
    merged = {}
    for k, c, w, d in viol:
        merged[k] = (c, w, d, ["build"])
    for r in reports:
        for k, c, w, d in r["viol"]:
            if k in merged:
                merged[k][3].append(r["config"])
            else:
                merged[k] = (c, w, d, [r["config"]])
    kf = known.load()
    listed = [(k, v) for k, v in merged.items() if known.match(kf, prop, k)]
    news = [(k, v) for k, v in merged.items() if not known.match(kf, prop, k)]
    for k, v in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, v[0], v[2][:300]))
    evidence(prop, tier, meta, reports, listed, news, time.time() - t0)
    if news:
        path = os.path.join(EVID, prop + ".violation.txt")
        with open(path, "w") as f:
            for k, (c, w, d, cs) in news:
                f.write("%s\n  construct: %s\n  at: %s\n  configurations: %s\n  %s\n\n" % (k, c, w, ", ".join(cs), d))
        for k, (c, w, d, cs) in news[:5]:
            print("%s: %s [%s] %s" % (prop, c, ",".join(cs), d[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    path = os.path.join(EVID, prop + ".violation.txt")
    if os.path.exists(path):
        os.unlink(path)
    print("%s holds: %d obligations discharged over %d configurations (%.1f s)" % (
        prop, sum(r["discharged"] for r in reports), len(reports), time.time() - t0))
    return 0


def evidence(prop, tier, meta, reports, listed, news, wall):
    kinds, fns, samples = {}, set(), []
    for r in reports:
        fns |= set(r["functions"])
        for k, (n, d) in r["kinds"].items():
            e = kinds.setdefault(k, {"obligations": 0, "discharged": 0})
            e["obligations"] += n
            e["discharged"] += d
    for r in reports[:1]:
        samples = r["samples"][:60]
    fns = sorted(fns)
    notes = sorted({n for r in reports for n in r["notes"]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": meta["explain"],
            "rule": meta["rule"],
            "configurations": {r["config"]: {"obligations": r["obligations"], "discharged": r["discharged"], "seconds": round(r["wall"], 2) if "wall" in r else 0} for r in reports},
            "obligations": sum(r["obligations"] for r in reports),
            "discharged": sum(r["discharged"] for r in reports),
            "obligations_by_rule": kinds,
            "functions_analysed": len(fns),
            "functions": fns[:150],
            "sample_obligations": samples,
            "notes": notes[:40],
            "source_stamp": dumper.repo_stamp(),
            "cached_dump_reused": tier != "thorough",
        },
        "assumptions": meta.get("trusts", []) + checks_common(),
        "violations": [{"key": k, "construct": v[0], "where": v[1], "detail": v[2][:400], "configurations": v[3], "known": False} for k, v in news[:30]]
        + [{"key": k, "construct": v[0], "where": v[1], "detail": v[2][:400], "configurations": v[3], "known": True} for k, v in listed[:30]],
        "wall_s": round(wall, 2),
    }
    os.makedirs(EVID, exist_ok=True)
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        ev["coverage"]["functions"] = fns[:40]
        ev["coverage"]["sample_obligations"] = samples[:20]
        s = json.dumps(ev, indent=1)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        f.write(s)


def checks_common():
    return [
        "rustc's MIR (mir_drops_elaborated_and_const_checked) is a faithful rendering of the source",
        "dependencies (curve arithmetic, hashes, generic-array, subtle, serde, core) behave as their documented contracts, modelled in sa/models.py",
    ]


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    os.environ["VERIF_TIER"] = tier
    try:
        rc = run(prop, tier)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2  # an error of the check, never an answer
    sys.exit(rc)
