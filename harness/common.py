"""Shared machinery of the checks: trace recording, TLC runs, verdicts, evidence.

A check = a driver that exercises the real clustertools and records what it shows as traces, plus a
TLA+ module that judges every recorded event.  Nothing here judges the code: only the TLA+ does.
"""
import json, os, re, subprocess, sys, time, signal, math, hashlib, shutil, tempfile, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


def say(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ encoding
def enc(x, depth=0):
    """JSON form: reals are strings (read by RealNum), ints and booleans stay, None is 'None'."""
    import numpy as np
    if x is None:
        return "None"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) < 2 ** 31 else repr(float(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return "NaN"
        if math.isinf(x):
            return "Infinity" if x > 0 else "-Infinity"
        return repr(x)
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if hasattr(x, "value_in"):
        raise TypeError("amuse quantity left in a trace")
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return enc(x.item())
        return [enc(v) for v in x]
    if isinstance(x, (list, tuple, set)):
        return [enc(v) for v in x]
    raise TypeError("cannot encode %r" % type(x))


def F(x):
    """force to a list of floats (so that integer-valued arrays are encoded as reals)"""
    import numpy as np
    a = np.asarray(x)
    if a.dtype == object:
        return [None if v is None else float(v) for v in a.ravel()]
    return [float(v) for v in np.atleast_1d(a).ravel()]


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout("did not finish in time")


class Trace:
    """one recorded execution"""

    def __init__(self, name, init=None):
        self.name, self.init, self.ev = name, init if init is not None else {}, []

    def add(self, **e):
        e.setdefault("exc", "")
        self.ev.append(e)
        return e

    def call(self, op, fn, observe=None, **args):
        """run fn() on the real code; record arguments, result/observation or exception"""
        e = dict(op=op, exc="", **args)
        out = None
        try:
            out = fn()
            if observe is not None:
                e.update(observe(out))
            enc(e)
        except Timeout:
            raise
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ""
            e = dict(op=op, exc="%s: %s [%s]" % (type(x).__name__, str(x)[:200], where), **args)
        self.ev.append(e)
        return out

    @property
    def failed(self):
        return bool(self.ev) and self.ev[-1].get("exc", "") != ""


def record(name, fn, limit=180):
    """run a scenario fn(trace); anything it lets escape becomes a failing event of its trace"""
    t = Trace(name)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(t)
    except Exception as x:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        tb = traceback.extract_tb(x.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4])
        t.ev.append(dict(op="crash", exc="%s: %s [%s]" % (type(x).__name__, str(x)[:200], where)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return t


# ------------------------------------------------------------------ TLC
def build_java():
    out = os.path.join(BUILD, "RealNum.class")
    src = os.path.join(VERIF, "java", "RealNum.java")
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = tempfile.mkdtemp(dir=BUILD)
        subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", tmp, src], check=True)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(BUILD, f))
        os.rmdir(tmp)


def tlc(module, cfg, work, env=None, extra=(), timeout=700, heap="6g", workers="8", deadlock=True):
    """run TLC on spec/<module>.tla with the given configuration text; returns its output"""
    build_java()
    cfgf = os.path.join(work, "run_%s.cfg" % hashlib.md5((module + cfg).encode()).hexdigest()[:8])
    with open(cfgf, "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-cp", ":".join([BUILD, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "-DTLA-Library=" + os.path.join(VERIF, "spec"), "tlc2.TLC", "-config", cfgf,
           "-metadir", meta, "-workers", os.environ.get("VERIF_WORKERS", str(workers)), "-noGenerateSpecTE"]
    if deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [os.path.join(VERIF, "spec", module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, universal_newlines=True)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


EVAL_ERROR = re.compile(r"Evaluating|evaluat|Attempted to|was not a|out of (domain|bounds)|In applying the function|RealNum", re.I)


def malformed(module, cfg, traces, idx, work, env, timeout, heap):
    """A recorded execution that is no behaviour of the specification at all (an array of the wrong length, a
    missing field) stops TLC with an evaluation error: find one such trace by bisection."""
    while True:
        if len(idx) == 1:
            return idx[0]
        for half in (idx[:len(idx) // 2], idx[len(idx) // 2:]):
            path = os.path.join(work, "half.json")
            with open(path, "w") as f:
                json.dump([dict(name=traces[i].name, init=enc(traces[i].init), ev=enc(traces[i].ev)) for i in half], f)
            rc, out = tlc(module, cfg, work, env=dict(env or {}, TRACE_FILE=path), timeout=timeout, heap=heap)
            if EVAL_ERROR.search(out) and len(re.findall(r'"(?:FAIL|DONE)",\s*\d+', out)) < len(half):
                idx = half
                break
        else:
            return None


def judge(module, traces, work, env=None, timeout=700, heap="8g", chunk_events=4000):
    """validate traces against spec/<module>.tla.  returns verdicts[i] = None | (event#, clauses), states"""
    verdict, total_gen, total_dist = {}, 0, 0
    live = [i for i, t in enumerate(traces) if t.ev]
    groups, cur, n = [], [], 0
    for i in live:
        cur.append(i)
        n += len(traces[i].ev)
        if n >= chunk_events:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)
    cfg = ("SPECIFICATION TSpec\nCONSTANTS\n  K_Init <- TheInit\n"
           "  K_Post <- ThePost\n  K_Fails <- TheFails\n")
    for g in groups:
        path = os.path.join(work, "traces.json")
        with open(path, "w") as f:
            json.dump([dict(name=traces[i].name, init=enc(traces[i].init), ev=enc(traces[i].ev)) for i in g], f)
        e = dict(env or {})
        e["TRACE_FILE"] = path
        rc, out = tlc(module, cfg, work, env=e, timeout=timeout, heap=heap)
        a, b = stats(out)
        total_gen += a
        total_dist += b
        for m in re.finditer(r'<<\s*"(FAIL|DONE)",\s*(\d+),\s*(\d+)(?:,\s*\{([^}]*)\})?\s*>>', out):
            i = g[int(m.group(2)) - 1]
            if m.group(1) == "DONE":
                verdict[i] = None
            else:
                verdict[i] = (int(m.group(3)), sorted(re.findall(r'"([^"]+)"', m.group(4) or "")))
        missing = [i for i in g if i not in verdict]
        if missing:
            keep = os.path.join(VERIF, "evidence", "tlc-error.txt")
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            with open(keep, "w") as f:
                f.write(out)
            bad = malformed(module, cfg, traces, missing, work, env, timeout, heap) if EVAL_ERROR.search(out) else None
            if bad is None:
                raise RuntimeError("TLC gave no verdict on %d trace(s) (first: %s, rc %d); see %s\n%s" % (
                    len(missing), traces[missing[0]].name, rc, keep, out[-3000:]))
            verdict[bad] = (len(traces[bad].ev), ["malformed"])
    return verdict, total_gen, total_dist


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """lines 'known: property=C05 trace=NAME clauses=a,b : what fails' of known-findings.txt"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+trace=(\S+)\s+clauses=(\S+)\s*:\s*(.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(dict(trace=m.group(2), clauses=set(m.group(3).split(",")), what=m.group(4)))
    return out


def setup_env():
    for k, v in dict(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", NUMBA_THREADING_LAYER="workqueue",
                     PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                     NUMBA_NUM_THREADS="1").items():
        os.environ.setdefault(k, v)
    warnings.filterwarnings("ignore")


def rebuild(events):
    return events
