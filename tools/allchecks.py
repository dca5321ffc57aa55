"""Development aid: runs every check in one process per configuration and
prints the properties that alarm. Same check functions as sa/check.py."""
import json, multiprocessing, os, sys, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "sa"))
sys.setrecursionlimit(20000)
import dump as dumper
import known


def work(a):
    name, props = a
    out = {}

    def go():
        import checks
        from report import Rep
        try:
            cx = checks.Cx(name)
        except BaseException as e:
            out["*"] = {"viol": [("analysis", "Cx", "", "%s %s" % (type(e).__name__, str(e)[:300]))], "config": name, "data": None}
            return
        for p in props:
            m = checks.META[p]
            if m.get("configs") and name not in m["configs"]:
                continue
            rep = Rep(p, name)
            t = time.time()
            try:
                getattr(checks, "check_" + p)(cx, rep)
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                rep.viol.append(("analysis | " + type(e).__name__, "analysis", "%s:%s" % (os.path.basename(tb.filename), tb.name), str(e)[:400]))
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
            d = rep.dump()
            out[p] = {"viol": d["viol"], "config": name, "data": d["data"], "t": time.time() - t}

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out


def main(props):
    import checks
    from report import Rep
    props = props or list(checks.META)
    res = {p: {} for p in props}
    usable = []
    t0 = time.time()
    if os.environ.get("ALLCFG"):
        dumper.extend_all()
    if os.environ.get("CFGS"):
        keep = os.environ["CFGS"].split(",")
        for n in [n for n in dumper.CONFIGS if n not in keep and not n.startswith("with-")]:
            del dumper.CONFIGS[n]
    for n in dumper.CONFIGS:
        try:
            dumper.dump(n)
            usable.append(n)
        except dumper.BuildError as e:
            print("BUILD", n, str(e)[-300:])
    t1 = time.time()
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        outs = pool.map(work, [(n, props) for n in sorted(usable, key=lambda n: n not in ("all", "release", "test", "std", "alloc"))], chunksize=1)
    for o in outs:
        for p, d in o.items():
            for k, c, w, t in d["viol"]:
                for q in (props if p == "*" else [p]):
                    res[q].setdefault(k, (c, w, t, []))[3].append(d["config"])
    for p in props:
        if p in checks.GLOBAL:
            rep = Rep(p, "x")
            try:
                checks.GLOBAL[p]([{"config": o[p]["config"], "data": o[p]["data"], "viol": o[p]["viol"]} for o in outs if p in o], rep)
            except Exception as e:
                rep.viol.append(("analysis", "global", "", "%s %s" % (type(e).__name__, e)))
            for k, c, w, t in rep.viol:
                res[p].setdefault(k, (c, w, t, []))[3].append("x")
    kf = known.load()
    hits = []
    for p in props:
        v = {k: x for k, x in res[p].items() if not known.match(kf, p, k)}
        if v:
            hits.append(p)
            for k, x in list(v.items())[:2 if not os.environ.get("VERB") else 99]:
                print("  %s %s | %s [%s] %s" % (p, k[:150], x[1][:60], ",".join(x[3]), x[2][:int(os.environ.get("W", "300"))].replace("\n", " ")))
    print("ALARMS", " ".join(hits) or "none", "(dump %.0f s, total %.0f s)" % (t1 - t0, time.time() - t0))


if __name__ == "__main__":
    main(sys.argv[1:])
