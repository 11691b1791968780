"""Runs TLC on a module of /verif/spec and reads its result."""
import hashlib, json, os, re, shutil, subprocess, tempfile, threading, glob
from build import VERIF, CACHE

JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
_lock = threading.Lock()

class ModelError(Exception):
    pass

def classes():
    src = sorted(glob.glob(os.path.join(VERIF, "java", "lessov", "*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()[:16]
    out = os.path.join(CACHE, "cls-" + h)
    with _lock:
        if not os.path.exists(os.path.join(out, "done")):
            new = tempfile.mkdtemp(prefix="cls-new-", dir=os.makedirs(CACHE, exist_ok=True) or CACHE)
            r = subprocess.run(["javac", "-d", new, "-cp", JAR, *src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise ModelError("javac: " + r.stdout[-2000:])
            open(os.path.join(new, "done"), "w").write("")
            try:
                os.rename(new, out)
            except OSError:         # somebody else was faster
                shutil.rmtree(new, ignore_errors=True)
    return out

OVERRIDES = {
    "none":   "tlc2.overrides.TLCOverrides",
    "keccak": "tlc2.overrides.TLCOverrides:lessov.KeccakOverrides:lessov.TraceOverrides",
    "all":    "tlc2.overrides.TLCOverrides:lessov.KeccakOverrides:lessov.CodeOverrides:lessov.TraceOverrides",
}

def tlc(module, cfg, env=None, overrides="all", workers=4, heap="4g", timeout=800, extra=(), keep=None):
    """returns dict(out, states, distinct, depth, ok, error)"""
    cls = classes()
    tmp = tempfile.mkdtemp(prefix="less-tlc-")
    try:
        c = os.path.join(tmp, "M.cfg")
        open(c, "w").write(cfg)
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseSerialGC" if heap == "2g" else "-XX:+UseParallelGC",
               "-Dtlc2.overrides.TLCOverrides=" + OVERRIDES[overrides], "-DTLA-Library=" + os.path.join(VERIF, "spec"),
               "-Djava.io.tmpdir=" + tmp,
               "-cp", f"{cls}:{JAR}:{CM}", "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(tmp, "meta"),
               "-noGenerateSpecTE", "-config", c, *extra, os.path.join(VERIF, "spec", module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=tmp, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise ModelError(f"{module}: TLC did not finish in {timeout} s")
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", out)
        g = [tuple(int(x) for x in t) for t in m]
        d = re.search(r"The depth of the complete state graph search is (\d+)", out)
        ok = r.returncode == 0 and "Model checking completed. No error has been found." in out
        res = dict(out=out, rc=r.returncode, ok=ok, states=g[-1][0] if g else 0, distinct=g[-1][1] if g else 0,
                   depth=int(d.group(1)) if d else 0)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def constants(params, more=None):
    return "CONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in {**params, **(more or {})}.items() if not str(v).startswith("<-")) \
        + "".join(f"  {k} {v}\n" for k, v in (more or {}).items() if str(v).startswith("<-"))

def check_trace(module, accept, params, sessions, overrides="all", workers=4, heap="6g", timeout=800, remember="Nothing"):
    """validates sessions against the specification; returns (rejects, result):
    rejects is a list of (session index, event index), both from 0"""
    f = tempfile.NamedTemporaryFile("w", suffix=".json", prefix="less-trace-", delete=False)
    try:
        f.write("[" + ",".join(s.blob for s in sessions) + "]")
        f.close()
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\n" + constants(params, {"Accept": "<- " + accept, "Remember": "<- " + remember})
        r = tlc(module, cfg, env={"TRACE": f.name}, overrides=overrides, workers=workers, heap=heap, timeout=timeout)
    finally:
        os.unlink(f.name)
    if not r["ok"]:
        # an answer for which the specification has no value (too short, out of
        # any domain) is not accepted either: TLC says in which state it was
        at = re.findall(r"^/\\ l = (\d+)$", r["out"], re.M), re.findall(r"^/\\ s = (\d+)$", r["out"], re.M)
        known = re.search(r"Error: (TLC threw an unexpected exception|Evaluating|Attempted|The following|In evaluation|The exception was)|attempted to|LESS no value|out of bounds|outside the domain|not in the domain|java.lang.(Array|Index|ClassCast|NullPointer|NegativeArray|Arithmetic|Illegal)", r["out"], re.I)
        if at[0] and at[1] and known and 0 < r["rc"] < 128 and "OutOfMemory" not in r["out"] and "StackOverflow" not in r["out"]:
            return [(int(at[1][-1]) - 1, int(at[0][-1]) - 1)], dict(r, states=len(sessions) + 1, distinct=1)
        raise ModelError(f"{module}: TLC failed\n" + tail(r["out"]))
    rej = sorted({(int(a) - 1, int(b) - 1) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', r["out"])})
    # every session is consumed up to its end or its rejected event
    stop = {s: l for s, l in rej}
    if len(stop) != len(rej):
        raise ModelError(f"{module}: a session was rejected twice")
    want = sum((stop[i] if i in stop else s.n) + 1 for i, s in enumerate(sessions))
    if r["distinct"] != want:
        raise ModelError(f"{module}: {r['distinct']} states for {want} expected\n" + tail(r["out"]))
    return rej, r

def tail(out):
    lines = [x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing"))]
    return "\n".join(x[:400] for x in lines[-60:])
