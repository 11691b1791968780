"""Builds conformance drivers from /repo's working tree.

A build is identified by the hash of everything that goes into it, so drivers
are reused only while nothing changed."""
import fcntl, glob, hashlib, os, subprocess, shutil, json, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LESS_REPO", "/repo")
CACHE = os.environ.get("LESS_VERIF_CACHE", os.path.join(VERIF, "build"))

# standard sets: name -> (category, corner)
REAL = {"c1b": (1, "BALANCED"), "c1i": (1, "INTERMEDIATE"), "c1s": (1, "SHORT_SIG"),
        "c3b": (3, "BALANCED"), "c3s": (3, "SHORT_SIG"), "c5b": (5, "BALANCED"), "c5s": (5, "SHORT_SIG")}
# what the specification document prescribes for them: N K S T W SL MAXB
REALP = {"c1b": (252, 126, 2, 247, 30, 16, 1472), "c1i": (252, 126, 4, 244, 20, 16, 1152), "c1s": (252, 126, 8, 198, 17, 16, 1056),
         "c3b": (400, 200, 2, 759, 33, 24, 3912), "c3s": (400, 200, 3, 895, 26, 24, 3264),
         "c5b": (548, 274, 2, 1352, 40, 32, 7168), "c5s": (548, 274, 3, 907, 37, 32, 5600)}
CATDIM = {1: dict(N=12, K=6, SL=16, MASK=0xff, POS="uint8_t", POSBITS=8, PAD=(32, 32, 32)),
          3: dict(N=16, K=8, SL=24, MASK=0x1ff, POS="uint16_t", POSBITS=9, PAD=(32, 32, 32)),
          5: dict(N=20, K=10, SL=32, MASK=0x3ff, POS="uint16_t", POSBITS=10, PAD=(32, 32, 32))}
# the standard code sizes, for sets with few rounds
BIGDIM = {1: dict(CATDIM[1], N=252, K=126, PAD=(256, 128, 128)),
          3: dict(CATDIM[3], N=400, K=200, PAD=(448, 224, 224)),
          5: dict(CATDIM[5], N=548, K=274, PAD=(576, 288, 288))}

# toy sets: name -> (category, S, T, W, MAXB in seeds)
TOY = {}
for n, (c, _) in REAL.items():
    N, K, S, T, W, SL, MAXB = REALP[n]
    TOY["t" + n[1:]] = (c, S, T, W, MAXB // SL)
TOY.update({
    "micro":  (1, 3, 5, 2, 4),
    "micro3": (3, 2, 6, 2, 4),
    "micro5": (5, 4, 5, 2, 4),
    "e8":    (1, 5, 8, 3, 5),      # power of two, S no power of two
    "e9":    (3, 3, 9, 1, 4),      # one challenged round
    "e7":    (5, 3, 7, 7, 1),      # every round challenged: only the padding is published
    "e13":   (1, 8, 13, 4, 8),
    "e16":   (3, 6, 16, 15, 2),
    "e33":   (5, 7, 33, 5, 17),
    "e12":   (1, 2, 12, 4, 7),     # two keys, worst case frequent
    # standard codes, few rounds
    "d1":    (1, 4, 12, 4, 7),
    "d3":    (3, 3, 13, 4, 8),
    "d5":    (5, 3, 11, 3, 7),
})
def dims(name):
    return (BIGDIM if name[0] == "d" else CATDIM)[TOY[name][0]]

def category(name):
    return REAL[name][0] if name in REAL else TOY[name][0]

def spec_params(name):
    """constants of the specification for a parameter set"""
    if name in REAL:
        N, K, S, T, W, SL, MAXB = REALP[name]
        return dict(N=N, K=K, S=S, T=T, W=W, SL=SL, MAXB=MAXB, CAT=REAL[name][0])
    c, S, T, W, ms = TOY[name]
    d = dims(name)
    return dict(N=d["N"], K=d["K"], S=S, T=T, W=W, SL=d["SL"], MAXB=ms * d["SL"], CAT=c)

def toy_header(name):
    c, S, T, W, ms = TOY[name]
    d = dims(name)
    P, mono = d['PAD'], (7 * d['K'] + 7) // 8 + (d['POSBITS'] * d['K'] + 7) // 8
    return "\n".join([
        "#pragma once", "#include <stdint.h>",
        f"#define SEED_LENGTH_BYTES ({d['SL']})", "#define FQ_ELEM uint8_t", "#define FQ_DOUBLEPREC uint16_t",
        "#define FQ_TRIPLEPREC uint32_t", f"#define POSITION_T {d['POS']}", "#define SEED_TREE_LABEL_T uint16_t",
        f"#define N ({d['N']})", f"#define K ({d['K']})", "#define Q (127)",
        f"#define N_pad ({P[0]})", f"#define K_pad ({P[1]})", f"#define N_K_pad ({P[2]})",
        f"#define NUM_KEYPAIRS ({S})", f"#define T ({T})", f"#define W ({W})",
        f"#define SEED_TREE_MAX_PUBLISHED_BYTES ({ms * d['SL']})",
        f"#define MASK_N ({d['MASK']:#x})", f"#define MONO_ACTION_PACKEDBYTES ({mono})", ""])

BACKENDS = {
    "ref":  dict(dir="Reference_Implementation", pad=False, inc=[]),
    "avx2": dict(dir="Optimized_Implementation/avx2", pad=True, inc=[]),
    "neon": dict(dir="Optimized_Implementation/neon", pad=True, inc=[os.path.join(VERIF, "driver", "neon_shim")]),
}
FEATURES = ["TREE", "CHALLENGE", "MONO", "ACTION", "CODES", "RREFPACK", "FQ", "SAMPLE", "HASH"]

class BuildError(Exception):
    pass

def _sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

_hash_lock = threading.Lock()
_hashes = {}
def tree_hash(backend):
    with _hash_lock:
        if backend in _hashes:
            return _hashes[backend]
        h = hashlib.sha256()
        d = os.path.join(REPO, BACKENDS[backend]["dir"])
        roots = [os.path.join(d, "include"), os.path.join(d, "lib"), os.path.join(VERIF, "driver")]
        for r in roots:
            for base, dirs, files in os.walk(r, followlinks=False):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(base, f)
                    try:
                        h.update(p.encode() + b"\0" + open(p, "rb").read())
                    except OSError:
                        h.update(p.encode() + b"?")
        _hashes[backend] = h.hexdigest()
        return _hashes[backend]

def sources(backend):
    d = os.path.join(REPO, BACKENDS[backend]["dir"], "lib")
    return sorted(glob.glob(d + "/*.c") + glob.glob(d + "/*.s") + glob.glob(d + "/*.S"))

def flags(backend, pset, san):
    b = BACKENDS[backend]
    cat = category(pset)
    fl = ["-std=gnu11", "-g1", "-w", "-DNDEBUG", f"-DCATEGORY_{cat}=1", "-march=native"]
    fl += ["-I" + i for i in b["inc"]] + ["-I" + os.path.join(REPO, b["dir"], "include")]
    if backend == "neon":
        fl += ["-flax-vector-conversions", "-O1"]
    elif san:
        fl += ["-mavx2", "-O1"]
    else:
        fl += ["-mavx2", "-O2" if pset in TOY else "-O3"]
    if b["pad"]:
        fl.append("-DDRV_PADDED=1")
    if pset in REAL:
        fl.append(f"-D{REAL[pset][1]}=1")
    if san == "asan":
        fl += ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    elif san == "tsan":
        fl += ["-fsanitize=thread"]
    else:
        fl += ["-fno-common"]
    return fl

def _compile(job):
    src, obj, fl, rename = job
    r = _sh(["gcc", *fl, "-c", src, "-o", obj])
    if r.returncode == 0 and rename and src.endswith(".c"):
        r = _sh(["objcopy", "--rename-section", ".data=lessdata", "--rename-section", ".bss=lessbss", obj])
    return r.returncode, src, r.stdout

_pool = ThreadPoolExecutor(8)
_locks, _owner = {}, os.getpid()
def forked():
    """a forked process has none of its parent's threads"""
    global _pool, _hash_lock, _locks, _owner
    if _owner != os.getpid():
        _pool, _hash_lock, _locks, _owner = ThreadPoolExecutor(8), threading.Lock(), {}, os.getpid()
def driver(backend, pset, san=""):
    """path of the driver binary, built if needed"""
    if backend.startswith("rng-"):
        return rng_driver(backend[4:], san)
    if backend.startswith("kat-"):
        return kat_generator(*backend.split("-")[1:], pset)
    key = hashlib.sha256(json.dumps([tree_hash(backend), backend, pset, san, flags(backend, pset, san),
                                     toy_header(pset) if pset in TOY else ""]).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "drv", f"{backend}-{pset}{'-' + san if san else ''}-{key}")
    with _hash_lock:
        lock = _locks.setdefault(out, threading.Lock())
    with lock:
        exe = os.path.join(out, "driver")
        if os.path.exists(os.path.join(out, "done")):
            return exe
        os.makedirs(os.path.join(CACHE, "drv"), exist_ok=True)
        with open(out + ".lock", "w") as lk:      # other processes may want it too
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(out, "done")):
                build_driver(out, backend, pset, san)
        return exe

def build_driver(out, backend, pset, san):
        exe = os.path.join(out, "driver")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        fl = flags(backend, pset, san)
        if pset in TOY:
            hdr = os.path.join(out, "less_toy_params.h")
            open(hdr, "w").write(toy_header(pset))
            fl += ["-I" + out, '-DLESS_VERIF_PARAMS_H="less_toy_params.h"']
        jobs = [(s, os.path.join(out, os.path.basename(s) + ".o"), fl, not san) for s in sources(backend)]
        res = list(_pool.map(_compile, jobs))
        for rc, s, o in res:
            if rc:
                raise BuildError(f"{backend}/{pset}: {s}: {o[-1500:]}")
        objs = [j[1] for j in jobs]
        dsrc = os.path.join(VERIF, "driver", "driver.c")
        dobj = os.path.join(out, "driver.o")
        def link(defs):
            r = _sh(["gcc", *fl, *defs, "-c", dsrc, "-o", dobj])
            if r.returncode == 0:
                r = _sh(["gcc", *fl, "-o", exe + ".tmp", dobj, *objs, "-lm", "-lpthread"])
            return r
        r = link([])
        if r.returncode:
            # a function the driver calls directly may be gone: leave out what needs it
            bad = [f for f in FEATURES if link([f"-DNO_{g}" for g in FEATURES if g != f]).returncode]
            r = link([f"-DNO_{g}" for g in bad])
            if r.returncode:
                raise BuildError(f"{backend}/{pset}: driver: {r.stdout[-1500:]}")
        os.rename(exe + ".tmp", exe)
        for o in objs + [dobj]:
            os.unlink(o)
        open(os.path.join(out, "done"), "w").write("")

# -- the known-answer tools ---------------------------------------------------
# copies of the generator: folder of KAT_NIST_rng.c and PQCgenKAT_sign.c, folder of the header
TOOLS = {"util": ("Utilities/KAT_Generation/lib", "Utilities/KAT_Generation/include"),
         "refnist": ("Reference_Implementation/lib/nist", "Reference_Implementation/lib/nist"),
         "optnist": ("Optimized_Implementation/common/lib/nist", "Optimized_Implementation/common/lib/nist")}
def tool_hash(copy):
    h = hashlib.sha256()
    for d in TOOLS[copy]:
        for p in sorted(glob.glob(os.path.join(REPO, d, "*.[ch]"))):
            h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()
def _tool(name, key, cmds):
    """an executable made by commands which write to the folder they are given"""
    out = os.path.join(CACHE, "drv", f"{name}-{hashlib.sha256(json.dumps(key).encode()).hexdigest()[:24]}")
    with _hash_lock:
        lock = _locks.setdefault(out, threading.Lock())
    with lock:
        os.makedirs(os.path.join(CACHE, "drv"), exist_ok=True)
        with open(out + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(out, "done")):
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                for cmd in cmds(out):
                    r = _sh(cmd)
                    if r.returncode:
                        raise BuildError(f"{name}: {r.stdout[-1500:]}")
                open(os.path.join(out, "done"), "w").write("")
    return os.path.join(out, "driver")
def rng_driver(copy, san):
    lib, inc = (os.path.join(REPO, x) for x in TOOLS[copy])
    src = os.path.join(VERIF, "driver", "drbg.c")
    fl = ["-std=gnu11", "-g1", "-w", "-O0" if san == "plain" else "-O2", "-I" + inc]
    if san == "asan":
        fl += ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift", "-fno-sanitize-recover=undefined"]
    return _tool(f"rng-{copy}{san}", [tool_hash(copy), open(src).read(), fl],
                 lambda out: [["gcc", *fl, "-o", os.path.join(out, "driver"), src, os.path.join(lib, "KAT_NIST_rng.c"), "-lcrypto"]])
def kat_generator(copy, backend, pset):
    """the program that writes the request and response files"""
    lib, inc = (os.path.join(REPO, x) for x in TOOLS[copy])
    fl = flags(backend, pset, "") + ["-I" + inc]
    hdr = toy_header(pset) if pset in TOY else ""
    def cmds(out):
        f = list(fl)
        if hdr:
            open(os.path.join(out, "less_toy_params.h"), "w").write(hdr)
            f += ["-I" + out, '-DLESS_VERIF_PARAMS_H="less_toy_params.h"']
        return [["gcc", *f, "-o", os.path.join(out, "driver"), *sources(backend), os.path.join(lib, "KAT_NIST_rng.c"), os.path.join(lib, "PQCgenKAT_sign.c"), "-lm", "-lcrypto"]]
    return _tool(f"kat-{copy}-{backend}-{pset}", [tool_hash(copy), tree_hash(backend), fl, hdr], cmds)

def drivers(specs):
    """builds several (backend, pset, san) concurrently; dict of path or BuildError"""
    def one(s):
        try:
            return driver(*s)
        except BuildError as e:
            return e
    with ThreadPoolExecutor(8) as ex:
        return dict(zip(specs, ex.map(one, specs)))
