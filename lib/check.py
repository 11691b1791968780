"""Scenario recording, judging by TLC, reporting."""
import hashlib, json, os, random, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import multiprocessing
import build, tlc
from build import VERIF, spec_params, BuildError
from drv import Driver, Generator, hx

class Budget:
    """gigabytes shared by concurrent TLC runs"""
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()
    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k
    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()
_mem, _cpu = Budget(24), Budget(8)

class Script:
    """the script that computes the reserved space"""
    def call(self, _, t, w, sec):
        p = os.path.join(build.REPO, "Utilities", "Parameter_Generation_Scripts", "seed_tree_param_computer.py")
        r = subprocess.run([sys.executable, "-B", p, str(t), str(w), str(sec)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        m = re.search(r"worst case size\D*(\d+)", r.stdout, re.I)
        return {"out": int(m.group(1))} if m and r.returncode == 0 else {"fault": "script", "detail": r.stdout[-300:]}

class Session:
    """A sequence of calls on one or several drivers in lockstep; every call
    becomes one event: what it was asked, what the first driver answered, and
    under "alt" what the others answered."""
    def __init__(self, check, pset, backends, label="", san=""):
        self.check, self.pset, self.label, self.san = check, pset, label, san
        self.backends = [backends] if isinstance(backends, str) else list(backends)
        self.events, self.calls, self.nk, self.ns = [], [], 0, 0
        self.keys, self.sigs = [], []
        self.skipped = self.dead = False
        self.before = None
    def raw(self, args, backends=None):
        if self.before is None:         # what the processes did before this session
            ds = [(b, self.check.drv(b, self.pset, self.san)) for b in self.backends]
            self.before = {b: (d.log, len(d.log)) for b, d in ds if isinstance(d, Driver) and d.p is not None}
        ds = [self.check.drv(b, self.pset, self.san) for b in (backends or self.backends)]
        if any(not isinstance(d, Driver) for d in ds):
            return [d.call(*args) for d in ds]
        for d in ds:
            d.send(*args)
        return [d.receive() for d in ds]
    def event(self, e, args, extra=None, backends=None):
        """runs a call and records it; result of the first driver or None"""
        if self.dead:
            return None
        bs = backends or self.backends
        ev, rs = make_event(e, args, extra or {}, bs, self.raw(args, bs))
        if ev is None:
            self.check.skipped.add((e, self.pset))
            return None
        self.events.append(ev)
        self.calls.append((e, [str(a) for a in args], extra or {}, bs))
        if ev["e"] == "fault":
            self.dead = True
            return None
        return ev
    # the session machine
    def rng(self, seed):
        return self.event("rng", ("rng", hx(seed)), {"seed": list(seed)})
    def probe(self, n):
        return self.event("probe", ("probe", n), {"n": n})
    def keypair(self, fill=0xA5):
        r = self.event("keypair", ("keypair", fill))
        self.keys.append(r)
        return r
    def importkey(self, sk, pk):
        """a key pair made elsewhere"""
        self.event("import", ("import",), {"sk": list(sk), "pk": list(pk)})
        self.keys.append({"sk": list(sk), "pk": list(pk)})
    def sign(self, k, m, fill=0xA5):
        """k counts from 1"""
        if self.dead:
            return None
        r = self.event("sign", ("sign", fill, hx(self.keys[k-1]["sk"]), hx(m)), {"k": k, "m": list(m)})
        self.sigs.append(r)
        return r
    def open(self, k, of, backends=None, fill=0xA5):
        if self.dead:
            return None
        return self.event("open", ("open", fill, hx(self.keys[k-1]["pk"]), hx(self.sigs[of-1]["sm"])), {"k": k, "of": of}, backends)
    def openraw(self, pk, sm, k=0, backends=None, fill=0xA5, of=0):
        """explicit signed message; explicit public key unless k"""
        if self.dead:
            return None
        ex = {"k": k, "of": of}
        if not k:
            ex["pk"] = list(pk)
        if not of:
            ex["sm"] = list(sm)
        return self.event("open", ("open", fill, hx(self.keys[k-1]["pk"] if k else pk), hx(sm)), ex, backends)
    def done(self, **kw):
        if self.events:
            self.check.add(self, **kw)
        return self
    # sessions travel from the recording process as text
    def freeze(self):
        self.n, self.weight = len(self.events), weight(self.events)
        self.heavy = any(e["e"] in ("sign", "open", "openmt") for e in self.events)
        self.blob = json.dumps(self.events, separators=(",", ":"))
        self.events, self.check = None, None
        self.keys, self.sigs = [], []
        return self
    def thaw(self, check):
        self.check, self.events = check, json.loads(self.blob)
        return self

_job = None
def _record(i):
    c, fn, items = _job
    build.forked()
    c.groups, c.skipped, c.rnd = {}, set(), None
    before, t0 = sum(d.calls for d in c.alldrv), time.time()
    fn(items[i])
    if os.environ.get("LESS_TIME") and time.time() - t0 > 4:
        c.log(f"  recording {items[i][1] if callable(items[i][0]) else items[i]}: {time.time() - t0:.1f} s")
    for g in c.groups.values():
        for s in g:
            s.freeze()
    return c.groups, c.skipped, sum(d.calls for d in c.alldrv) - before

def make_event(e, args, extra, backends, results):
    for b, r in zip(backends, results):
        if "fault" in r:
            return {"e": "fault", "at": str(args[0]), "be": b, "what": r["fault"], "detail": r.get("detail", "")[:600]}, results
        if "nocmd" in r:
            return None, results
    mine = dict(e=e, be=backends[0], **extra)
    assert not set(mine) & set(results[0]), (set(mine), set(results[0]))
    ev = dict(results[0], **mine)
    # an answer some other back end gave as well is recorded once
    ev["alt"] = [dict(r, be=b) for i, (b, r) in enumerate(zip(backends, results)) if i and r not in results[:i]]
    return ev, results

class Check:
    def __init__(self, pid, tier, seed, accept=None, module=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.accept, self.module = accept or "Accept" + pid, module or "T_" + pid
        self.rnd = random.Random(f"{seed}-{pid}")
        self.t0 = time.time()
        self.groups, self.order = {}, []
        self.models, self.pool = [], ThreadPoolExecutor(16)
        self.drvs, self.skipped, self.missing = {}, set(), {}
        self.stats = dict(states=0, transitions=0, traces=0, events=0, calls=0)
        self.samples, self.notes = [], []
        self.tl, self.lock = threading.local(), threading.Lock()
        self.remember = "Nothing"
        self.alldrv, self.jobs = [], []
    # -- drivers -----------------------------------------------------------
    def prebuild(self, specs):
        """builds (backend, pset[, san]); parameter sets which do not build are left out"""
        specs = [s if len(s) == 3 else (*s, "") for s in specs]
        for s, r in build.drivers(specs).items():
            if isinstance(r, BuildError):
                self.missing[s] = str(r)
        self.log(f"built {len(specs) - len(self.missing)} drivers")
    def have(self, b, pset, san=""):
        return (b, pset, san) not in self.missing
    def backends(self, pset, bs=("ref", "avx2", "neon"), san=""):
        return [b for b in bs if self.have(b, pset, san)]
    def drv(self, b, pset, san=""):
        d = self.tl.__dict__.setdefault("drvs", {})
        key = (b, pset, san)
        if key not in d:
            if b == "script":
                d[key] = Script()
            elif b.startswith("kat-"):        # kat-copy-backend#run
                d[key] = Generator(build.kat_generator(*b.partition("#")[0].split("-")[1:], pset))
            else:
                d[key] = Driver(build.driver(b, pset, san))
                self.alldrv.append(d[key])
        return d[key]
    def fresh(self):
        """new driver processes from here on (in this thread)"""
        for d in self.tl.__dict__.get("drvs", {}).values():
            if isinstance(d, Driver):
                d.close()
        self.tl.__dict__.pop("drvs", None)
    def session(self, pset, backends, label="", san=""):
        return Session(self, pset, backends, label, san)
    def add(self, s, overrides="all", group=""):
        group = ""
        with self.lock:
            self.groups.setdefault((s.pset, overrides, group), []).append(s)
    def parallel(self, fn, items, n=8):
        """scenario recording in processes, which have drivers of their own"""
        global _job
        items = list(items)
        _job = (self, fn, items)
        with ProcessPoolExecutor(min(n, len(items)), mp_context=multiprocessing.get_context("fork")) as ex:
            for groups, skipped, calls in ex.map(_record, range(len(items))):
                for k, g in groups.items():
                    self.groups.setdefault(k, []).extend(g)
                self.skipped |= skipped
                self.stats["calls"] += calls
        _job = None
    # -- design-level models -------------------------------------------------
    def model(self, module, cfg, workers=2, heap=2, overrides="all", extra=(), timeout=840, env=None, distinct=None):
        """a model of the design which must satisfy its properties"""
        def run():
            _mem.take(heap); _cpu.take(workers)
            try:
                r = tlc.tlc(module, cfg, overrides=overrides, workers=workers, heap=f"{heap}g", timeout=timeout, extra=extra, env=env)
                if r["ok"] and r["distinct"] != (distinct or r["distinct"]):
                    r = dict(r, ok=False, out=f"{r['distinct']} states for {distinct}")
                return r
            finally:
                _mem.give(heap); _cpu.give(workers)
        self.models.append([module, run])
    def must_fail(self, module, cfg, **kw):
        """a model of a mistaken design, which must not satisfy them"""
        self.model(module, cfg, **kw)
        name, run = self.models.pop()
        def inverted():
            r = run()
            return dict(r, ok="is violated" in r["out"] and not r["ok"])
        self.models.append([name + " (mistaken)", inverted])
    def overrides(self, runs=12, heavy=3):
        """the Java code TLC may use for some operators gives what their
        definitions give"""
        def run():
            out = []
            for n, k in ((8, 4), (15, 8)):
                cfg = f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Show\nCONSTANTS N = {n} K = {k} S = 2 T = 3 W = 1 SL = 16 MAXB = 64 CAT = 1 Runs = {runs} Heavy = {heavy}\n"
                rs = []
                for o in ("none", "all"):
                    _mem.take(2); _cpu.take(2)
                    try:
                        r = tlc.tlc("OverrideMC", cfg, overrides=o, workers=2, heap="2g", timeout=840)
                    finally:
                        _mem.give(2); _cpu.give(2)
                    if not r["ok"]:
                        return r
                    rs.append(sorted(x for x in r["out"].splitlines() if x.startswith(('"L', '"C'))))
                if rs[0] != rs[1] or len(rs[0]) != runs + heavy:
                    return dict(r, ok=False, out="the Java code and the definitions differ")
            return r
        self.models.append(["OverrideMC", run])
    # -- behaviours of the specification, to be replayed ---------------------
    def behaviours(self, module, cfg, tag, need=1):
        r = tlc.tlc(module, cfg, overrides="none", workers=8, heap="6g")
        if not r["ok"]:
            raise tlc.ModelError(f"{module}\n" + tlc.tail(r["out"]))
        self.stats["states"] += r["distinct"]
        self.stats["transitions"] += r["states"]
        out = sorted(set(re.findall(r'<<"%s", "(.*)">>' % tag, r["out"])))
        out = [json.loads(x.replace('\\"', '"')) for x in out]
        if len(out) < need:
            raise tlc.ModelError(f"{module}: no behaviours")
        self.log("model", module, "states", r["distinct"], "behaviours", len(out))
        return out
    def histories(self, length):
        cfg = f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv Emit\nPROPERTY OpenDrawsNothing\nCONSTANTS Length = {length} MaxKeys = 2 MaxSigs = 2 Seeds = {{0, 1}} KeyBytes = 48 SignBytes = 48\n"
        return self.behaviours("LessHist", cfg, "HIST")
    def sponge_ops(self, rate, n, rnd):
        """piece sizes of the small model, scaled to the rate"""
        with self.lock:
            if not hasattr(self, "_sponge"):
                self._sponge = self.behaviours("SpongeMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv Emit\nCONSTANTS R = 4 Sizes = {0, 1, 3, 4, 5, 8, 9} MaxIn = 3 MaxOut = 3\n", "OPS")
        scale = lambda v: v // 4 * rate + (0, 1, rate // 2, rate - 1)[v % 4]
        return [([scale(v) for v in a], [scale(v) for v in b]) for a, b in rnd.sample(self._sponge, min(n, len(self._sponge)))]
    # -- the parameter script -------------------------------------------------
    def script(self):
        s = self.session("c1b", "script", "parameter script")
        std = [(T, W, {1: 128, 3: 192, 5: 256}[CAT]) for _, _, _, T, W, _, _, CAT in (tuple(build.REALP[p]) + (build.REAL[p][0],) for p in build.REAL)]
        more = []
        while len(more) < (200 if self.thorough else 24):
            t = self.rnd.randrange(5, 600)
            w = self.rnd.randrange(1, t // 2 + 1)
            if t & (t - 1):
                more.append((t, w, self.rnd.choice((128, 192, 256))))
        for t, w, sec in std + more:
            s.event("script", ("script", t, w, sec), dict(t=t, w=w, sec=sec))
        s.done(group="script")
    # -- judging -----------------------------------------------------------
    def heap(self, pset, sessions):
        """gigabytes for a TLC run over these sessions"""
        p = spec_params(pset)
        work = p["T"] * p["K"] * p["N"] * 24 * 4 if p["T"] * p["K"] > 20000 and any(s.heavy for s in sessions) else 0
        n = sum(s.weight for s in sessions) * 48 + 4 * work
        return min(20, 2 + n // 10**9)
    def judge(self, k, sessions, workers):
        pset, overrides, group = k
        heap = self.heap(pset, sessions)
        _mem.take(heap); _cpu.take(workers)
        t0 = time.time()
        try:
            return tlc.check_trace(self.module, self.accept, spec_params(pset), sessions, overrides, workers, f"{heap}g", remember=self.remember)
        finally:
            if os.environ.get("LESS_TIME"):
                self.log(f"  {k} {len(sessions)} sessions {sum(s.n for s in sessions)} events heap {heap} workers {workers}: {time.time() - t0:.1f} s")
            _mem.give(heap); _cpu.give(workers)
    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)
    def later(self, fn, key):
        self.jobs.append((fn, key))
    def record(self):
        """runs the queued recordings, those which take longest first"""
        def cost(j):
            ps = [x for x in (j[1] if isinstance(j[1], tuple) else (j[1],)) if x in build.REAL or x in build.TOY]
            return max([0] + [spec_params(p)["K"] ** 2 * (10 + spec_params(p)["T"]) for p in ps])
        jobs, self.jobs = sorted(self.jobs, key=lambda j: -cost(j)), []
        if jobs:
            self.parallel(lambda j: j[0](j[1]), jobs)
    def finish(self, level="model_checking", assumptions=(), extra=None, exhaustive=None):
        self.record()
        for d in self.alldrv:
            self.stats["calls"] += d.calls
            d.close()
        for g in self.groups.values():
            for s in g:
                if s.events is not None:
                    s.freeze()
        for m in self.models:
            m[1] = self.pool.submit(m[1])
        work = sorted(self.groups.items(), key=lambda kg: -sum(s.weight for s in kg[1]) - 10**7 * spec_params(kg[0][0])["T"] * (kg[0][0] in build.REAL))
        self.log("recorded", sum(s.n for _, g in work for s in g), "events in", sum(len(g) for _, g in work), "sessions")
        nw = 8 if len(work) <= 1 else 4 if len(work) <= 2 else 2
        futs = [(k, g, self.pool.submit(self.judge, k, g, min(nw, len(g)))) for k, g in work]
        bad = []
        for k, g, f in futs:
            rej, r = f.result()
            self.stats["states"] += r["distinct"]
            self.stats["transitions"] += r["states"] - len(g)
            self.stats["traces"] += len(g)
            self.stats["events"] += sum(s.n for s in g)
            self.log("judged", *k, "states", r["distinct"], "rejects", len(rej))
            bad += [(k, g[s], l) for s, l in rej]
        for m, f in self.models:
            r = f.result()
            if not r["ok"]:
                raise tlc.ModelError(f"{m}: the model itself fails\n" + tlc.tail(r["out"]))
            self.stats["states"] += r["distinct"]
            self.stats["transitions"] += r["states"]
            self.log("model", m, "states", r["distinct"])
        for k, g in work[:6]:
            s = g[len(g) // 2].thaw(self)
            self.samples.append(dict(params=k[0], label=s.label, backends=s.backends,
                                     events=[shorten(e) for e in s.events[:4]]))
        viol = []
        for k, s, l in bad[:4]:
            s.thaw(self)
            if self.confirm(k, s):
                viol.append((k, s, l))
                break
            self.log("rejection not repeated:", k, s.label, l)
        self.evidence(level, assumptions, extra, exhaustive, len(bad) if viol else 0)
        if viol:
            k, s, l = viol[0]
            path = self.save(k, s, l)
            self.log("rejected event:", json.dumps(shorten(s.events[l]))[:1500])
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        if bad:
            raise tlc.ModelError(f"{len(bad)} rejections, none of which could be repeated")
        return 0
    def confirm(self, k, s):
        """executes the calls of a rejected session again, in new processes,
        and judges the new recording on its own; then once more with all that
        the processes had done before"""
        for attempt, history in enumerate((False, True, False, True, False)):
            if history and not any(n for _, n in (s.before or {}).values()):
                continue
            t = self.again(s, history)
            if t.events:
                rej, _ = self.judge(k, [t.freeze()], 2)
                if rej:
                    s.history = history
                    return True
        return False
    def again(self, s, history):
        self.fresh()
        if history:
            for b, (log, n) in s.before.items():
                for args in log[:n]:
                    self.drv(b, s.pset, s.san).call(*args)
        t = Session(self, s.pset, s.backends, s.label, s.san)
        for e, args, extra, bs in s.calls:
            ev, _ = make_event(e, args, extra, bs, t.raw(args, bs))
            if ev is None:
                break
            t.events.append(ev); t.calls.append((e, args, extra, bs))
            if ev["e"] == "fault":
                break
        self.fresh()
        return t
    def replay(self, path):
        """executes a recorded violation again: exit 1 when it still is one"""
        r = json.load(open(path))
        s = Session(self, r["params"], r["backends"], r["label"], r["san"])
        s.calls = [tuple(x) for x in r["calls"]]
        s.before = {b: (log, len(log)) for b, log in r["before"].items()}
        self.remember = r.get("remember", "Nothing")
        k = (r["params"], r["overrides"], r["group"])
        if self.confirm(k, s):
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        return 0
    def save(self, k, s, l):
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{hashlib.sha256(json.dumps(s.calls).encode()).hexdigest()[:10]}.json")
        json.dump(dict(property=self.pid, remember=self.remember, params=k[0], overrides=k[1], group=k[2], san=s.san, backends=s.backends,
                       label=s.label, rejected=l, calls=s.calls,
                       before={b: [[str(a) for a in args] for args in log[:n]] for b, (log, n) in (s.before or {}).items()} if getattr(s, "history", False) else {},
                       event=s.events[l]), open(p, "w"))
        return p
    def evidence(self, level, assumptions, extra, exhaustive, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.stats["states"], transitions=self.stats["transitions"],
                   traces_validated_against_impl=self.stats["traces"], events_validated=self.stats["events"],
                   samples=self.samples)
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        if self.skipped:
            cov["skipped"] = sorted(f"{a}/{b}" for a, b in self.skipped)
        if self.missing:
            cov["not_built"] = sorted("/".join(x) for x in self.missing)
        if self.notes:
            cov["notes"] = self.notes
        cov.update(extra or {})
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                       assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=violations),
                  open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)

def weight(v):
    """number of values in an event"""
    if isinstance(v, dict):
        return sum(weight(x) for x in v.values())
    if isinstance(v, list):
        return len(v) if not v or isinstance(v[0], int) else sum(weight(x) for x in v)
    return 1

def shorten(v, n=24):
    if isinstance(v, dict):
        return {k: shorten(x, n) for k, x in v.items()}
    if isinstance(v, list):
        return [shorten(x, n) for x in v] if len(v) <= n else [shorten(x, n) for x in v[:n]] + [f"... {len(v)} in all"]
    return v
