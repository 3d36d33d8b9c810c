"""usage: run.py PROPERTY quick|thorough   -- runs one check, writes its evidence, sets the exit code"""
import importlib, json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as K

DRIVERS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "drivers.json")))


class Quiet:
    """the library prints a lot; keep stdout for verdicts"""

    def __enter__(self):
        sys.stdout.flush()
        self.fd = os.dup(1)
        self.nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(self.nul, 1)
        self.old = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout = self.old
        os.dup2(self.fd, 1)
        os.close(self.fd)
        os.close(self.nul)


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    K.setup_env()
    t0 = time.time()
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "drivers"))
    sys.path.insert(0, K.REPO)
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    os.chdir(work)
    try:
        return go(prop, tier, work, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(work, ignore_errors=True)


def go(prop, tier, work, t0):
    spec = DRIVERS[prop]
    try:
        with Quiet():
            mod = importlib.import_module(spec["driver"])
            import_failed = None
    except Exception as x:   # the real code does not even import
        import_failed = "%s: %s" % (type(x).__name__, x)
    evid = dict(property=prop, tier=tier, seed=K.SEED, level=spec["level"], coverage={}, violations=0)
    extra = {}
    if import_failed:
        t = K.Trace("import")
        t.add(op="crash", exc=import_failed)
        traces = [t]
    else:
        try:
            with Quiet():
                traces, extra = mod.make(prop, tier, K.SEED, work)
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            if not any(os.path.abspath(f.filename).startswith(os.path.abspath(K.REPO) + os.sep) for f in tb):
                raise
            t = K.Trace("driver")        # the real code raised outside a recorded call
            t.add(op="crash", exc="%s: %s [%s:%d]" % (type(x).__name__, str(x)[:200], tb[-1].filename, tb[-1].lineno))
            traces = [t]
    t1 = time.time()
    verdict, gen, dist = K.judge(spec["module"], traces, work, env=dict(PROP=prop, TIER=tier),
                                 timeout=spec.get("tlc_timeout", 840 if tier == "quick" else 7200))
    t2 = time.time()
    known = K.known_findings(prop)
    bad, seen = [], []
    for i, t in enumerate(traces):
        v = verdict.get(i)
        if v is None:
            continue
        hit = [k for k in known if k["trace"] == t.name and set(v[1]) <= k["clauses"]]
        (seen if hit else bad).append((t, v, hit))
    for t, v, hit in seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
    rdir = os.path.join(K.VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for n, (t, v, _) in enumerate(bad):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        e = t.ev[v[0] - 1]
        if n < 20:
            json.dump(dict(property=prop, tier=tier, seed=K.SEED, trace=t.name, failing_event=v[0], clauses=v[1],
                           event=K.enc(e), init=K.enc(t.init), ops=[K.enc({k: x for k, x in q.items() if k != "obs"}) for q in t.ev[:v[0]]]),
                      open(path, "w"), indent=1)
        if n < 8:
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            K.say("  trace %s, event %d (%s): %s  %s" % (t.name, v[0], e.get("op"), ",".join(v[1]), e.get("exc", "")))
    # evidence
    events = sum(len(t.ev) for t in traces)
    sigs = {K.hashlib.md5(json.dumps(K.enc([t.init, [{k: x for k, x in e.items() if k not in ("obs",)} for e in t.ev]]),
                                     sort_keys=True).encode()).hexdigest() for t in traces if len(t.ev) > 0}
    ex = extra.pop("samples", None) or [dict(trace=t.name, ops=[
        {k: x for k, x in K.enc(e).items() if k in ("op", "u", "o", "fn", "args", "via", "an", "so", "exc")} for e in t.ev[:6]])
        for t in traces[:: max(1, len(traces) // 3)][:3]]
    cov = dict(samples=ex, rule=spec["rule"])
    ms, mt = extra.pop("states", 0), extra.pop("transitions", 0)
    if spec["level"] == "model_checking":
        cov.update(states=dist + ms, transitions=gen + mt,
                   traces_validated_against_impl=len([1 for i in range(len(traces)) if i in verdict]))
    else:
        cov.update(evaluations=events, distinct_nontrivial=len(sigs),
                   traces_validated_against_impl=len([1 for i in range(len(traces)) if i in verdict]))
    cov.update(extra)
    cov["events_judged"] = sum(len(t.ev) if verdict.get(i) is None else verdict[i][0] for i, t in enumerate(traces))
    cov["driver_seconds"], cov["tlc_seconds"] = round(t1 - t0, 2), round(t2 - t1, 2)
    cov["known_findings_seen"] = len(seen)
    if tier == "thorough":
        cov["cases_by_kind"] = {}
        for t in traces:
            k = t.name.split(":")[0]
            cov["cases_by_kind"][k] = cov["cases_by_kind"].get(k, 0) + 1
    evid.update(coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(bad),
                assumptions=spec.get("assumptions", []))
    os.makedirs(os.path.join(K.VERIF, "evidence"), exist_ok=True)
    json.dump(evid, open(os.path.join(K.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for x in lines:
        print(x)
    if bad:
        return 1
    print("OK property=%s traces=%d events=%d states=%d wall=%.1fs" % (prop, len(traces), events, dist, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
