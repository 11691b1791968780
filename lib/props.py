"""What each check makes the implementation do.  Nothing here decides: every
answer is judged by TLC against the specification (module T_<id>)."""
import random, models
from drv import hx, hx16
from pyless import Scheme, flat, bitlen, Q, INV
from build import REAL, TOY, REALP

MICRO = ["micro", "micro3", "micro5"]
EDGE = ["e8", "e9", "e7", "e13", "e16", "e33", "e12"]
ROUND = ["t1b", "t1i", "t1s", "t3b", "t3s", "t5b", "t5s"]
BIG = ["d1", "d3", "d5"]
C1, C3, C5 = ["c1b", "c1i", "c1s"], ["c3b", "c3s"], ["c5b", "c5s"]
SMALL = MICRO + EDGE + ROUND
ALL3 = ["ref", "avx2", "neon"]
PROPS = {}

def prop(pid, level="model_checking", assumptions=()):
    def reg(f):
        PROPS[pid] = (f, level, list(assumptions))
        return f
    return reg

def rot(i):
    """the back ends, another one first each time"""
    return [ALL3[(i + j) % 3] for j in range(3)]

class Item:
    """one unit of recording work, with its own random choices"""
    def __init__(self, c, *key):
        self.c, self.key = c, key
        self.rnd = random.Random(f"{c.seed}-{c.pid}-{key}")
    def bytes(self, n):
        return self.rnd.randbytes(n)

def run(c, fn, keys):
    for k in keys:
        k = k if isinstance(k, tuple) else (k,)
        c.later(lambda k: fn(Item(c, fn.__name__, *k), *k), k)

def build_for(c, sets, bs=ALL3, san=""):
    c.prebuild([(b, p, san) for p in sets for b in bs])

LENGTHS = [0, 1, 33, 7, 135, 136, 137, 8, 167, 168, 169, 31, 71, 72, 73, 103, 104, 105, 255, 256, 257, 64, 300, 1000, 3300, 16, 2]
def msg(it, i):
    n = LENGTHS[i % len(LENGTHS)]
    return it.bytes(n)

# -- single calls ------------------------------------------------------------
def ephem(s, seed, salt, r):
    return s.event("ephem", ("ephem", hx(seed), hx(salt), r), dict(seed=list(seed), salt=list(salt), r=r))
def priv(s, seed):
    return s.event("priv", ("priv", hx(seed)), dict(seed=list(seed)))
def rref(s, m):
    return s.event("rref", ("rref", hx(flat(m))), {"in": m})
def commit(s, m, c, p):
    return s.event("commit", ("commit", hx(flat(m)), hx(c), hx16(p)), {"in": m, "mc": list(c), "mp": list(p)})
def gmul(s, m, c, p):
    return s.event("gmul", ("gmul", hx(flat(m)), hx(c), hx16(p)), {"in": m, "mc": list(c), "mp": list(p)})
def lexmin(s, m):
    return s.event("lexmin", ("lexmin", hx(flat(m))), {"in": m})
def lexsort(s, m):
    return s.event("lexsort", ("lexsort", hx(flat(m))), {"in": m})
def monomul(s, a, b):
    return s.event("monomul", ("monomul", hx(a[0]), hx16(a[1]), hx(b[0]), hx16(b[1])), dict(ac=list(a[0]), ap=list(a[1]), bc=list(b[0]), bp=list(b[1])))
def monoinv(s, a):
    return s.event("monoinv", ("monoinv", hx(a[0]), hx16(a[1])), dict(ac=list(a[0]), ap=list(a[1])))
def compose(s, m, b):
    return s.event("compose", ("compose", hx(m[0]), hx16(m[1]), hx(b[0]), hx16(b[1])), dict(mc=list(m[0]), mp=list(m[1]), bc=list(b[0]), bp=list(b[1])))
def applyact(s, g, b):
    return s.event("applyact", ("applyact", hx(flat(g)), hx(b[0]), hx16(b[1])), {"in": g, "bc": list(b[0]), "bp": list(b[1])})
def packact(s, b, fill):
    return s.event("packact", ("packact", fill, hx(b[0]), hx16(b[1])), dict(bc=list(b[0]), bp=list(b[1])))
def unpackact(s, b):
    return s.event("unpackact", ("unpackact", hx(b)), dict(bytes=list(b)))
def valid(s, b):
    return s.event("valid", ("valid", hx(b[0]), hx16(b[1])), dict(bc=list(b[0]), bp=list(b[1])))
def packrref(s, m, fl, fill):
    return s.event("packrref", ("packrref", fill, hx(flat(m)), hx(fl)), {"in": m, "fl": list(fl)})
def unpackrref(s, b):
    return s.event("unpackrref", ("unpackrref", hx(b)), dict(bytes=list(b)))
def compact(s, m, fl):
    return s.event("compact", ("compact", hx(flat(m)), hx(fl)), {"in": m, "fl": list(fl)})
def sfexpand(s, seed):
    return s.event("sfexpand", ("sfexpand", hx(seed)), dict(seed=list(seed)))
def challenge(s, d):
    return s.event("challenge", ("challenge", hx(d)), dict(digest=list(d)))
def treetrip(s, root, salt, hid, fill=0xA5):
    return s.event("treetrip", ("treetrip", fill, 0, hx(root), hx(salt), hx(hid)), dict(root=list(root), salt=list(salt), hid=list(hid)))
def treepath(s, hid):
    return s.event("treepath", ("treepath", hx(hid)), dict(hid=list(hid)))
def tree(s, root, salt):
    return s.event("tree", ("tree", hx(root), hx(salt)), dict(root=list(root), salt=list(salt)))
def rebuild(s, hid, salt, seeds):
    return s.event("rebuild", ("rebuild", hx(salt), hx(hid), hx(b"".join(seeds))), dict(hid=list(hid), salt=list(salt), seeds=list(b"".join(seeds))))
def params(s, standard):
    return s.event("params", ("params",), dict(standard=standard))
def sample(s, kind, seed, n):
    return s.event("sample", ("sample", kind, hx(seed), n), dict(kind=kind, seed=list(seed), n=n))

# -- inputs ------------------------------------------------------------------
def rand_mono(it, n):
    return [it.rnd.randrange(1, Q) for _ in range(n)], it.rnd.sample(range(n), n)
def monos(it, n, count):
    """monomial maps: structured ones first"""
    idc = [1] * n
    top = [126] * n
    ramp = [1 + i % 126 for i in range(n)]
    yield idc, list(range(n))
    yield top, list(range(n - 1, -1, -1))
    yield ramp, [(i + 1) % n for i in range(n)]
    yield ramp[::-1], [(i - 1) % n for i in range(n)]
    yield top, [i ^ 1 if (i ^ 1) < n else i for i in range(n)]
    # special shapes: scalings only, permutations only, one exchange, one scaled
    # position, involutions, a map fixing one half
    yield ramp, list(range(n))
    yield [it.rnd.randrange(1, Q) for _ in range(n)], list(range(n))
    yield idc, it.rnd.sample(range(n), n)
    sw = list(range(n))
    sw[0], sw[n - 1] = sw[n - 1], sw[0]
    yield idc, sw
    yield ramp, sw
    one = list(idc)
    one[n // 2] = 2
    yield one, list(range(n))
    half = list(range(n // 2)) + it.rnd.sample(range(n // 2, n), n - n // 2)
    yield [it.rnd.randrange(1, Q) for _ in range(n)], half
    for _ in range(count):
        yield rand_mono(it, n)
def rand_act(it, S):
    return [it.rnd.randrange(1, Q) for _ in range(S.K)], it.rnd.sample(range(S.N), S.K)
def acts(it, S, count):
    K, N = S.K, S.N
    yield [1] * K, list(range(K))
    yield [126] * K, list(range(N - 1, N - 1 - K, -1))
    yield [126] * K, list(range(N - K, N))
    yield [1 + i % 126 for i in range(K)], [2 * i for i in range(K)]
    yield [126 - i % 126 for i in range(K)], [2 * i + 1 for i in range(K)]
    for _ in range(count):
        yield rand_act(it, S)
def rand_rows(it, r, n, mode=0):
    if mode == 0:
        return [[it.rnd.randrange(Q) for _ in range(n)] for _ in range(r)]
    if mode == 1:
        return [[it.rnd.choice((0, 0, 0, 1, 126)) for _ in range(n)] for _ in range(r)]
    return [[it.rnd.choice((0, 1, 126)) for _ in range(n)] for _ in range(r)]
def reduced(it, S, piv, mode=0):
    """a reduced matrix with exactly these pivot columns; entries left of a row's pivot are zero"""
    m = [[0] * S.N for _ in range(S.K)]
    ps = sorted(piv)
    for i, p in enumerate(ps):
        m[i][p] = 1
        for j in range(p + 1, S.N):
            if j not in piv:
                m[i][j] = it.rnd.randrange(Q) if mode == 0 else it.rnd.choice((0, 1, 126))
    return m
def scramble(it, m):
    """another basis of the same row space"""
    m = [list(r) for r in m]
    k = len(m)
    for _ in range(2 * k):
        i, j = it.rnd.randrange(k), it.rnd.randrange(k)
        if i != j:
            f = it.rnd.randrange(1, Q)
            m[i] = [(x + f * y) % Q for x, y in zip(m[i], m[j])]
    for i in range(k):
        f = it.rnd.randrange(1, Q)
        m[i] = [x * f % Q for x in m[i]]
    it.rnd.shuffle(m)
    return m
def flags_of(S, piv):
    ps = set(piv)
    return [1 if j in ps else 0 for j in range(S.N)]
def pivot_sets(it, S, count):
    K, N = S.K, S.N
    yield list(range(K))
    yield list(range(N - K, N))
    yield list(range(0, 2 * K, 2))
    yield list(range(1, 2 * K, 2))
    yield list(range(K - 1)) + [K]
    yield list(range(K - 1)) + [N - 1]
    yield [0] + list(range(N - K + 1, N))
    yield list(range(1, K + 1))
    for _ in range(count):
        yield sorted(it.rnd.sample(range(N), K))
def pattern(it, S, kind):
    """a set of W challenged rounds"""
    T, W, L = S.T, S.W, S.leaves
    if kind == "random":
        hit = it.rnd.sample(range(T), W)
    elif kind == "first":
        hit = range(W)
    elif kind == "last":
        hit = range(T - W, T)
    elif kind == "even":
        hit = [i * T // W for i in range(W)]
    elif kind == "stride":
        hit = [(T - 1) - i * T // W for i in range(W)]
    elif kind == "ends":
        hit = list(range(W // 2)) + list(range(T - (W - W // 2), T))
    elif kind == "cluster":
        a = it.rnd.randrange(T)
        hit = [(a + i) % T for i in range(W)]
    elif kind == "odd":
        st = [2 * i + 1 for i in range(T // 2)]
        hit = it.rnd.sample(st, min(W, len(st)))
        hit += it.rnd.sample([i for i in range(T) if i not in hit], W - len(hit))
    elif kind == "pairs":
        b = it.rnd.sample(range(T // 2), W // 2)
        hit = [2 * i for i in b] + [2 * i + 1 for i in b]
        hit += it.rnd.sample([i for i in range(T) if i not in hit], W - len(hit))
    else:
        hit = worst_pattern(S)
    x = [0] * T
    for i in hit:
        x[i] = it.rnd.randrange(1, S.S)
    return x
PATTERNS = ["random", "first", "last", "even", "stride", "ends", "cluster", "odd", "pairs", "worst"]
_worst = {}
def worst_pattern(S):
    """a pattern which publishes most seeds: dynamic programming over the tree"""
    if S.pset in _worst:
        return _worst[S.pset]
    from functools import lru_cache
    @lru_cache(None)
    def tab(h, real):
        if real == 0:
            return ((1, ()),)
        if h == 0:
            return ((1, ()), (0, (0,)))
        half = 1 << (h - 1)
        A, B = tab(h - 1, min(real, half)), tab(h - 1, max(0, real - half))
        out = [(1, ())]
        for w in range(1, min(real, S.W) + 1):
            best = None
            for a in range(max(0, w - len(B) + 1), min(w, len(A) - 1) + 1):
                v = A[a][0] + B[w - a][0]
                if best is None or v > best[0]:
                    best = (v, a)
            v, a = best
            out.append((v, A[a][1] + tuple(x + half for x in B[w - a][1])))
        return tuple(out)
    _worst[S.pset] = list(tab(bitlen(S.T), S.T)[S.W][1])
    return _worst[S.pset]

def history(it, s, S, keys, signs, opens=True, probe=True, i0=0):
    """a plain run: keys, signatures, openings"""
    s.rng(it.bytes(3 * S.SL))
    for _ in range(keys):
        s.keypair(it.rnd.choice((0, 0xA5, 0xFF)))
    for i in range(signs):
        k = 1 + i % keys
        s.sign(k, msg(it, i0 + i), it.rnd.choice((0, 0xA5, 0xFF)))
        if opens and not s.dead:
            s.open(k, len(s.sigs), fill=it.rnd.choice((0, 0xA5, 0xFF)))
    if probe:
        s.probe(16)
    return s

def relatives(it, S, n):
    """private keys which have much in common"""
    a, b = it.bytes(S.PL + S.SL), it.bytes(S.PL + S.SL)
    P, L = S.PL, S.PL + S.SL
    def mix(x, y, ks):
        return bytes(y[i] if i in ks else x[i] for i in range(L))
    out = [a, mix(a, b, range(P)), mix(a, b, range(P, L)), mix(a, b, [P - 1]), mix(a, b, [0]), mix(a, b, [P]), mix(a, b, [L - 1]),
           mix(a, b, range(1, L)), mix(a, b, range(4, L)), mix(a, b, range(L - 1)), mix(a, b, range(P, P + S.SL // 2)), mix(a, b, range(P + S.SL // 2, L)),
           mix(a, b, range(P + 1, L)), mix(a, b, range(P, L - 1)), mix(a, b, range(1, P)), mix(a, b, range(P - 1)), mix(a, b, range(P // 2, P)), mix(a, b, range(P // 2)),
           a[:P] + a[:S.SL], a[P:] + bytes(P), bytes(L), b"\xff" * L, flip(a, it.rnd.randrange(8 * P)), flip(a, 8 * P + it.rnd.randrange(8 * S.SL))]
    return [x for x in out[:1] + it.rnd.sample(out[1:], min(n, len(out)) - 1)]
def related(it, s, S, n, opens=True):
    """keys with much in common used in turn"""
    s.rng(it.bytes(48))
    sks = relatives(it, S, n)
    for sk in sks: s.importkey(sk, S.pubkey(sk))
    k = list(range(1, n + 1))
    for i in [j for p in k[1:] for j in (1, p)] + it.rnd.sample(k, n):
        s.sign(i, it.bytes(it.rnd.randrange(9)), it.rnd.choice((0, 0xA5, 0xFF)))
        if opens and not s.dead: s.open(i, len(s.sigs))
    if opens and not s.dead:        # and in another order
        for j in it.rnd.sample(range(1, len(s.sigs) + 1), min(len(s.sigs), 2 * n)):
            s.open(s.sigs[j-1]["k"], j)
    s.probe(8)
    return s

def huge(s, lo, plain, ends=()):
    """a message of more than 2^32 bytes; plain: opened as it is; ends: bytes
    counted from its end that are altered one by one"""
    if s.dead: return
    n = (1 << 32) + lo
    s.event("huge", ("huge", hx(s.keys[0]["sk"]), hx(s.keys[0]["pk"]), int(plain), 1, lo, *ends), dict(n=list(n.to_bytes(8, "big")), plain=int(plain), ends=len(ends)))

# ===========================================================================
@prop("C01")
def c01(c):
    models.add(c, "scheme")
    sets = SMALL + BIG
    build_for(c, sets)
    c.prebuild([(b, p) for p in C1 for b in ("ref", "avx2")])
    slow = C3 + C5
    c.prebuild([("avx2", p) for p in slow])
    if c.thorough:
        c.prebuild([(b, p) for p in slow for b in ("ref", "neon")] + [("neon", p) for p in C1])
    n = 10 if c.thorough else 1
    def one(it, p, first):
        S = Scheme(p)
        many = p in EDGE + MICRO
        for r in range(n):
            s = c.session(p, rot(first), f"{p} run {r}")
            history(it, s, S, 2, 25 if many else 3 if p in BIG else 4, i0=first * 9 + 25 * r)
            if p in MICRO and first == r % 3:
                for ln in (65535, 65536, 65537) + ((300000,) if c.thorough else (100001,)):
                    s.sign(1, it.bytes(ln)); s.open(1, len(s.sigs))
            s.done()
    def real(it, p, bs, signs):
        s = c.session(p, bs, f"{p} {bs}")
        history(it, s, Scheme(p), 1, signs, i0=it.rnd.randrange(27)).done()
    def cross(it, p):
        # signed on one back end, opened on both
        s = c.session(p, ["avx2", "ref"], f"{p} across")
        s.rng(it.bytes(48)); s.event("keypair", ("keypair", 0), backends=["avx2"]); s.keys.append(s.events[-1])
        if not s.dead:
            m = msg(it, it.rnd.randrange(27))
            s.sigs.append(s.event("sign", ("sign", 0, hx(s.keys[0]["sk"]), hx(m)), {"k": 1, "m": list(m)}, ["avx2"]))
            s.open(1, 1)
        s.done()
    def kin(it, p, first):
        s = c.session(p, rot(first), f"related keys {p}")
        related(it, s, Scheme(p), 24 if c.thorough or p in MICRO else 6).done()
    def vast(it, p, be):
        s = c.session(p, be, f"message over 4 GiB {p} {be}")
        s.rng(it.bytes(48)); s.keypair()
        huge(s, it.rnd.randrange(1, 300), True)
        s.probe(8)
        s.done()
    jobs = [(p, f) for p in sets for f in range(3)]
    run(c, vast, [("micro", "avx2")] + ([("micro5", "avx2"), ("micro3", "ref"), ("micro", "neon")] if c.thorough else []))
    run(c, kin, [(p, i % 3) for i, p in enumerate(MICRO + EDGE)])
    c.prebuild([("ref", p) for p in slow])
    run(c, cross, slow)
    if c.thorough:
        run(c, real, [(p, tuple(b), k) for p in slow for b, k in ((["ref", "avx2"], 2), (["avx2", "neon"], 4))])
        run(c, real, [(p, tuple(b), 8) for p in C1 for b in (["ref", "avx2", "neon"], ["neon", "ref"], ["avx2", "ref"])])
    else:
        run(c, real, [(p, bs, 3) for p in C1 for bs in (("ref", "avx2"), ("avx2", "ref"))])
    run(c, one, jobs)

# --- C02 ---------------------------------------------------------------------
def flip(b, i):
    b = bytearray(b)
    b[i // 8] ^= 1 << (i % 8)
    return bytes(b)
def mutants(it, S, sm, other):
    """alterations of a signed message which keep its length"""
    d = S.split(sm)
    yield S.join(dict(d, m=it.bytes(len(d["m"]))))
    yield S.join(dict(d, salt=it.bytes(S.HL)))
    yield S.join(dict(d, salt=d["salt"][:-1] + bytes([d["salt"][-1] ^ 0x80])))
    yield S.join(dict(d, digest=it.bytes(S.HL)))
    if other:
        o = S.split(other)
        yield S.join(dict(d, acts=o["acts"]))
        yield S.join(dict(d, salt=o["salt"]))
        yield S.join(dict(d, digest=o["digest"]))
        yield S.join(dict(d, digest=o["digest"], salt=o["salt"]))
        yield S.join(dict(o, m=d["m"]))
        yield S.join(dict(d, acts=d["acts"][:-1] + o["acts"][-1:]))
        yield S.join(dict(d, acts=o["acts"][:1] + d["acts"][1:]))
    if len(d["seeds"]) > 1:
        yield S.join(dict(d, seeds=d["seeds"][::-1]))
        yield S.join(dict(d, seeds=d["seeds"][:-1] + [it.bytes(S.SL)]))
        yield S.join(dict(d, seeds=[flip(d["seeds"][0], 8 * S.SL - 1)] + d["seeds"][1:]))
    if S.W > 1:
        yield S.join(dict(d, acts=d["acts"][::-1]))
        yield S.join(dict(d, acts=d["acts"][1:] + d["acts"][:1]))
    # single responses: one coefficient, the order of columns, all coefficients
    for i in sorted({0, S.W - 1, it.rnd.randrange(S.W)}):
        p, co = S.unpackact(d["acts"][i])
        for j in sorted({0, S.K - 1, it.rnd.randrange(S.K)}):
            q = list(co)
            q[j] = q[j] % 126 + 1
            yield S.join(dict(d, acts=d["acts"][:i] + [S.packact(p, q)] + d["acts"][i+1:]))
            r = list(p)
            r[j] = it.rnd.choice([x for x in range(S.N) if x not in p])
            yield S.join(dict(d, acts=d["acts"][:i] + [S.packact(r, co)] + d["acts"][i+1:]))
        a, b = it.rnd.sample(range(S.K), 2)
        r = list(p)
        r[a], r[b] = r[b], r[a]
        yield S.join(dict(d, acts=d["acts"][:i] + [S.packact(r, co)] + d["acts"][i+1:]))
        f = it.rnd.randrange(2, Q)
        yield S.join(dict(d, acts=d["acts"][:i] + [S.packact(p, [x * f % Q for x in co])] + d["acts"][i+1:]))
    # the message longer or shorter at the expense of nothing else
    yield b"\0" + sm
    if d["m"]:
        yield sm[1:]
        yield S.join(dict(d, m=d["m"][1:] + d["m"][:1]))
def long_messages(it, s, S, lens=(65536 + 40,), changes=True):
    """messages longer than 16 bits can count, and alterations of their signed form"""
    for ln in lens:
        m = it.bytes(ln)
        s.sign(1, m, 0)
        if s.dead: return
        sm = bytes(s.sigs[-1]["sm"])
        if not changes: continue
        s.open(1, len(s.sigs))
        for i in (0, 1, ln // 2, 40, 65535, 65536, ln - 1):
            if i < ln: s.openraw(None, flip(sm, 8 * i + it.rnd.randrange(8)), k=1)
        # shorter or longer by 2^16, 2^8
        for d in (65536, 256):
            if ln >= d:
                s.openraw(None, sm[d:], k=1)
                s.openraw(None, sm[:ln-d] + sm[ln:], k=1)
        s.openraw(None, sm[:40] + sm, k=1)
def same_challenge(it, S, digest, keep, tries=20000):
    """another digest with the same challenge that agrees with this one
    outside the bytes keep(i) says may differ"""
    x = S.challenge(digest)[0]
    one = [i for i in range(len(digest)) if keep(i)]
    if len(one) == 1:
        for v in it.rnd.sample(range(256), 256):
            e = digest[:one[0]] + bytes([v]) + digest[one[0]+1:]
            if e != digest and S.challenge(e)[0] == x:
                return e
        return None
    for _ in range(tries):
        e = bytes(it.rnd.randrange(256) if keep(i) else b for i, b in enumerate(digest))
        if e != digest and S.challenge(e)[0] == x:
            return e
    return None

def strange_keys(it, s, S, n):
    """signatures forged for public keys of unusual form: all columns beside
    the pivots with ties, zeros, long common beginnings; all kinds of pivots;
    responses which pick just these columns"""
    pk = bytes(s.keys[0]["pk"])
    pivs = list(pivot_sets(it, S, 6))
    for k in range(n):
        i = 1 + k % (S.S - 1)
        piv = pivs[it.rnd.randrange(len(pivs))]
        rest = [j for j in range(S.N) if j not in piv]
        m = [[0] * S.N for _ in range(S.K)]
        for a, j in enumerate(piv): m[a][j] = 1
        for q, j in zip(columns(it, S, k % 8, S.N - S.K, S.K), rest):
            for a in range(S.K): m[a][j] = q[a]
        o = S.SL + (i - 1) * S.rrefbytes
        key = pk[:o] + S.packrref(m, flags_of(S, piv)) + pk[o+S.rrefbytes:]
        x = [0] * S.T
        for r in pattern_hits(it, S): x[r] = i
        def act(_, p, co):
            how = it.rnd.randrange(6)
            if how == 0: p = list(piv)
            elif how == 1: p = (rest + piv)[:S.K]
            elif how == 2: p = it.rnd.sample((rest + piv)[:S.K], S.K)
            elif how == 3: p = sorted(p)
            if it.rnd.randrange(3) == 0: co = [it.rnd.choice((1, 126))] * S.K
            return p, co
        sm = S.forge(key, b"odd", act, it.rnd, x=x)
        if sm:
            s.openraw(key, sm)
            if k % 4 == 3: s.openraw(key, flip(sm, it.rnd.randrange(8 * (len(sm) - 1))))
def pattern_hits(it, S):
    return it.rnd.sample(range(S.T), S.W)

@prop("C02")
def c02(c):
    models.add(c, "scheme", "frame")
    build_for(c, SMALL + BIG)
    c.prebuild([(b, p) for p in C1 for b in ("ref", "avx2")])
    if c.thorough:
        c.prebuild([("avx2", p) for p in C3 + C5])
    def micro(it, p, part):
        S = Scheme(p)
        s = c.session(p, rot(part), f"single bits {p} {part}")
        s.rng(it.bytes(48)); s.keypair(); s.keypair()
        s.sign(1, it.bytes(3)); s.sign(1, it.bytes(3)); s.sign(2, it.bytes(3))
        if s.dead: return s.done()
        s.open(1, 1)
        sm, pk = bytes(s.sigs[0]["sm"]), bytes(s.keys[0]["pk"])
        if part == 0:
            bits = range(8 * len(sm))
            for i in bits if c.thorough or p == "micro" else it.rnd.sample(bits, min(600, len(bits))):
                s.openraw(None, flip(sm, i), k=1)
        elif part == 1:
            bits = range(8 * len(pk))
            for i in bits if c.thorough or p == "micro" else it.rnd.sample(bits, min(600, len(bits))):
                s.openraw(flip(pk, i), None or sm, k=0)
        else:
            # every byte of the digest, the challenge unchanged
            d = S.split(sm)
            for r in range(3 if c.thorough else 1):
                for i in range(S.HL):
                    e = same_challenge(it, S, d["digest"], lambda j: j == i)
                    if e: s.openraw(None, S.join(dict(d, digest=e)), k=1)
            for lo, hi in ((S.HL // 2, S.HL), (0, S.HL // 2), (S.HL - 4, S.HL), (32, S.HL)):
                e = same_challenge(it, S, d["digest"], lambda j: lo <= j < hi)
                if e: s.openraw(None, S.join(dict(d, digest=e)), k=1)
            # every byte of the salt and of every response, changed at random
            for off in list(range(len(d["m"]), len(sm) - 1)):
                b = bytearray(sm); b[off] ^= it.rnd.randrange(1, 256)
                s.openraw(None, bytes(b), k=1)
            for _ in range(10):
                for m in mutants(it, S, sm, bytes(s.sigs[it.rnd.choice((1, 2))]["sm"])):
                    s.openraw(None, m, k=1)
            s.open(2, 1)
            s.openraw(bytes(s.keys[1]["pk"]), sm)
            s.openraw(pk[:S.SL] + bytes(s.keys[1]["pk"])[S.SL:], sm)
        s.done()
    def longer(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first), f"long messages {p}")
        s.rng(it.bytes(48)); s.keypair()
        long_messages(it, s, S, (300, 65536 + 40) + ((131072 + 3, 1 << 20) if c.thorough else ()))
        s.done()
    run(c, longer, [(p, i) for i, p in enumerate(MICRO)])
    def vast(it, p, be):
        s = c.session(p, be, f"message over 4 GiB {p} {be}")
        s.rng(it.bytes(48)); s.keypair()
        lo = it.rnd.randrange(10, 300)
        huge(s, lo, False, (lo // 2,) + ((1, (1 << 32) + lo - 1, 1 << 31) if c.thorough else ()))
        s.done()
    run(c, vast, [("micro", "avx2")] + ([("micro5", "avx2"), ("micro3", "ref"), ("micro", "neon")] if c.thorough else []))
    def odd(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first), f"strange keys {p}")
        s.rng(it.bytes(48)); s.keypair()
        if not s.dead: strange_keys(it, s, S, 240 if c.thorough else 40)
        s.done()
    run(c, odd, [(p, i) for p in MICRO for i in range(2)])
    def toy(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first), f"mutants {p}")
        s.rng(it.bytes(48)); s.keypair(); s.keypair()
        few = not c.thorough and (p in BIG or p in ("t3b", "t3s", "t5b", "t5s"))
        for r in range((12 if p in EDGE else 2) if c.thorough else (3 if p in EDGE else 1)):
            n = len(s.sigs)
            s.sign(1, msg(it, 3 * r + first + 1)); s.sign(1, msg(it, 3 * r + first + 2))
            if s.dead: break
            s.open(1, n + 1); s.open(2, n + 2)
            ms = list(mutants(it, S, bytes(s.sigs[n]["sm"]), bytes(s.sigs[n+1]["sm"])))
            for i, m in enumerate(it.rnd.sample(ms, 10) if few else ms):
                s.openraw(None, m, k=1, backends=["avx2", "neon"] if few and p in BIG and i % 4 else None)
            sm, pk = bytes(s.sigs[n]["sm"]), bytes(s.keys[0]["pk"])
            for i in range(1, 2 if few else S.S):
                o = S.SL + (i - 1) * S.rrefbytes
                b = bytearray(pk); b[o + S.fb + it.rnd.randrange(S.rrefbytes - S.fb)] ^= 1 << it.rnd.randrange(7)
                s.openraw(bytes(b), sm)
            s.openraw(flip(pk, it.rnd.randrange(8 * S.SL)), sm)
        s.done()
    def real(it, p, first):
        S = Scheme(p)
        bs = ["ref", "avx2"] if p in C1 and first == 0 else ["avx2"]
        s = c.session(p, bs, f"mutants {p}")
        s.rng(it.bytes(48)); s.keypair(); s.sign(1, msg(it, first + 3)); s.sign(1, it.bytes(40))
        if s.dead: return s.done()
        s.open(1, 1)
        ms = list(mutants(it, S, bytes(s.sigs[0]["sm"]), bytes(s.sigs[1]["sm"])))
        for m in ms if c.thorough and p in C1 else it.rnd.sample(ms, 3 if first == 0 else 5):
            s.openraw(None, m, k=1)
        s.done()
    run(c, real, [(p, 0) for p in C1] + ([(p, 1) for p in C1 + C3 + C5] if c.thorough else [("c1b", 1), ("c1s", 1)]))
    run(c, micro, [(p, k) for p in MICRO for k in range(3)])
    run(c, toy, [(p, f) for p in EDGE + ROUND + BIG for f in (range(3) if c.thorough or p in EDGE else (SMALL.index(p) % 3 if p in SMALL else 0,))])

# --- seed tree ---------------------------------------------------------------
def subsets(T):
    for v in range(1, 1 << T):
        yield [(v >> i) & 1 for i in range(T)]

@prop("C03")
def c03(c):
    models.add(c, "seedtree")
    build_for(c, SMALL)
    c.prebuild([(b, p) for p in C1 + C3 + C5 for b in ("ref", "avx2")] + [(b, p) for p in BIG for b in ("ref", "avx2", "neon")])
    def paths(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first) if p in SMALL else ["ref", "avx2"], f"patterns {p}")
        if S.T <= (13 if c.thorough else 9):
            for h in subsets(S.T):
                treepath(s, h)
        else:
            for kind in PATTERNS:
                for _ in range(20 if c.thorough else 3):
                    treepath(s, [it.rnd.choice((1, 1, S.S - 1)) if v else 0 for v in pattern(it, S, kind)] if False else [1 if v else 0 for v in pattern(it, S, kind)])
            for _ in range(40 if c.thorough else 6):    # other weights
                w = it.rnd.randrange(1, S.T + 1)
                hit = set(it.rnd.sample(range(S.T), w))
                treepath(s, [1 if r in hit else 0 for r in range(S.T)])
        s.done(group="paths")
    def sigs(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first), f"signatures {p}")
        n = (60 if p in MICRO + EDGE else 8 if p in ROUND else 4) * (8 if c.thorough else 1)
        s.rng(it.bytes(48)); s.keypair(); s.keypair()
        for i in range(n):
            s.sign(1 + i % 2, it.bytes(it.rnd.randrange(20)) if i % 3 else b"same")
        s.done(group="sign")
    def real(it, p):
        S = Scheme(p)
        s = c.session(p, ["ref", "avx2"], f"signatures {p}")
        history(it, s, S, 1, 12 if c.thorough else 2, opens=False).done(group="sign")
    if c.thorough:
        for p in C3 + C5: pass
        run(c, real, C1 + C3 + C5)
    else:
        run(c, real, C1)
    run(c, paths, [(p, i % 3) for i, p in enumerate(SMALL + C1 + C3 + C5)])
    run(c, sigs, [(p, (i + 1) % 3) for i, p in enumerate(SMALL + BIG)])

@prop("C04")
def c04(c):
    models.add(c, "seedtree")
    sets = SMALL + C1 + C3 + C5
    c.prebuild([(b, p) for p in SMALL for b in ALL3] + [(b, p) for p in C1 + C3 + C5 for b in ("ref", "avx2")])
    def one(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first) if p in SMALL else ["ref", "avx2"], f"trees {p}")
        tree(s, it.bytes(S.SL), it.bytes(S.HL))
        if S.T <= (13 if c.thorough else 9):
            hids = list(subsets(S.T))
        else:
            hids = []
            for kind in PATTERNS:
                for _ in range(6 if c.thorough else 2 if p in EDGE else 1):
                    hids.append([1 if v else 0 for v in pattern(it, S, kind)])
            for _ in range(10 if c.thorough else 2):
                hit = set(it.rnd.sample(range(S.T), it.rnd.randrange(1, S.T + 1)))
                hids.append([1 if r in hit else 0 for r in range(S.T)])
            if S.T > 500 and not c.thorough:
                hids = hids[:5] + hids[-3:]
        for h in hids:
            if len(S.published(h)) > S.maxseeds:
                continue        # not of the prescribed weight: no room reserved
            treetrip(s, it.bytes(S.SL), it.bytes(S.HL), h)
        for h in it.rnd.sample(hids, min(len(hids), 40 if S.T < 50 else 4)):
            rebuild(s, h, it.bytes(S.HL), [it.bytes(S.SL) for _ in S.published(h)])
        # salts and seeds which differ in one bit only
        h = [1 if v else 0 for v in pattern(it, S, "random")]
        root, salt = it.bytes(S.SL), it.bytes(S.HL)
        if S.T < 50:
            for i in range(8 * S.HL):
                treetrip(s, root, flip(salt, i), h)
            for i in range(8 * S.SL):
                treetrip(s, flip(root, i), salt, h)
        else:
            for i in (0, 8 * S.HL - 1, it.rnd.randrange(8 * S.HL)):
                tree(s, root, flip(salt, i))
        for v in (0, 255):
            tree(s, bytes([v] * S.SL), bytes([v] * S.HL))
        s.done()
    def sigs(it, p, first):
        # the verifier rebuilds what the signer used: honest signatures open
        s = c.session(p, rot(first), f"signatures {p}")
        history(it, s, Scheme(p), 1, 20 * (5 if c.thorough else 1)).done(group="sign")
    run(c, one, [(p, i % 3) for i, p in enumerate(sets)])
    run(c, sigs, [(p, i % 3) for i, p in enumerate(EDGE)] )

@prop("C05")
def c05(c):
    models.add(c, "seedtree")
    c.prebuild([(b, p) for p in SMALL + BIG for b in ALL3] + [(b, p) for p in C1 + C3 + C5 for b in ALL3])
    c.prebuild([("avx2", p, "asan") for p in MICRO + EDGE] + [("ref", p, "asan") for p in MICRO + EDGE])
    def std(it, p):
        S = Scheme(p)
        s = c.session(p, ALL3, f"sizes {p}")
        params(s, 1)
        for kind in PATTERNS:
            for _ in range(5 if c.thorough else 1):
                treetrip(s, it.bytes(S.SL), it.bytes(S.HL), [1 if v else 0 for v in pattern(it, S, kind)], it.rnd.choice((0, 0xA5, 0xFF)))
        s.done(group="trees")
        if p in C1 or c.thorough:
            s = c.session(p, ["avx2"] if p in C5 else ["ref", "avx2"], f"signatures {p}")
            history(it, s, S, 1, 10 if c.thorough else 2, opens=False).done(group="sign")
    def toy(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first), f"sizes {p}")
        params(s, 0)
        for kind in PATTERNS:
            treetrip(s, it.bytes(S.SL), it.bytes(S.HL), [1 if v else 0 for v in pattern(it, S, kind)])
        if S.T <= 13:
            for h in subsets(S.T):
                if sum(h) == S.W:
                    treetrip(s, it.bytes(S.SL), it.bytes(S.HL), h)
        s.done(group="trees")
        s = c.session(p, rot(first), f"signatures {p}")
        n = 60 if p in MICRO + EDGE else 5
        history(it, s, S, 1, n * (6 if c.thorough else 1), opens=False).done(group="sign")
    def asan(it, p, b):
        s = c.session(p, [b], f"sanitised {p} {b}", san="asan")
        history(it, s, Scheme(p), 1, 60 if c.thorough else 15).done(group="asan")
    run(c, asan, [(p, b) for p in MICRO + EDGE for b in ("ref", "avx2")])
    run(c, toy, [(p, i % 3) for i, p in enumerate(SMALL + BIG)])
    run(c, std, C1 + C3 + C5)
    c.script()

@prop("C06")
def c06(c):
    models.add(c, "challenge")
    c.prebuild([(b, p) for p in SMALL for b in ALL3] + [(b, p) for p in C1 + C3 + C5 for b in ("ref", "avx2")])
    def one(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first) if p in SMALL else ["ref", "avx2"], f"digests {p}")
        for v in (0, 1, 127, 128, 255):
            challenge(s, bytes([v] * S.HL))
        # every byte of the digest counts
        d = it.bytes(S.HL)
        challenge(s, d)
        for i in range(S.HL):
            challenge(s, flip(d, 8 * i + it.rnd.randrange(8)))
        for _ in range(600 if c.thorough else 60):
            challenge(s, it.bytes(S.HL))
        # digests which reject most, which just use up a block, which hit the ends
        cand = []
        for _ in range(150000 if c.thorough else 15000):
            d = it.bytes(S.HL)
            x, n = S.challenge(d)
            cand.append((n, x, d))
        cand.sort(key=lambda t: t[0])
        rate = 84 if S.CAT == 1 else 68
        pick = cand[-25:] + cand[:10]
        pick += [t for t in cand if t[0] % rate == 0][:8] + [t for t in cand if t[0] % rate == 1][:8] + [t for t in cand if t[0] % rate == rate - 1][:8]
        pick += [t for t in cand if t[1][0] and t[1][-1]][:10] + [t for t in cand if t[1][0] == S.S - 1 or t[1][-1] == S.S - 1][:10]
        for n, x, d in pick:
            challenge(s, d)
        s.done(group="digests")
    def sigs(it, p, first):
        s = c.session(p, rot(first), f"signatures {p}")
        history(it, s, Scheme(p), 1, (40 if p in MICRO + EDGE else 6) * (5 if c.thorough else 1)).done(group="sign")
    run(c, one, [(p, i % 3) for i, p in enumerate(SMALL + C1 + C3 + C5)])
    run(c, sigs, [(p, i % 3) for i, p in enumerate(SMALL)])

# --- randomness, histories ---------------------------------------------------
def replay(it, s, S, ops, seeds, msgs):
    """executes a history of the specification (module LessHist)"""
    s.rng(seeds[0])
    for o in ops:
        a = o["o"]
        if s.dead:
            return
        if a == "seed":
            s.rng(seeds[o["i"]])
        elif a == "key":
            s.keypair()
        elif a == "sign":
            s.sign(o["k"], msgs[o["i"]])
        elif a == "open":
            s.open(s.sigs_key[o["i"]-1], o["i"]) if hasattr(s, "sigs_key") else s.open(o["k"], o["i"])
        elif a == "wrong":      # under another key
            s.open(o["k"], o["i"])
        elif a == "bad":        # one bit of the signed message
            sm = bytes(s.sigs[o["i"]-1]["sm"])
            s.openraw(None, flip(sm, (o["b"] * 8 * len(sm)) // 4 + it.rnd.randrange(8)), k=o["k"])
        elif a == "junk":
            s.openraw(None, it.bytes(S.sigbytes(1) + 5), k=o["k"])
        elif a == "probe":
            s.probe(o["i"])
    if not s.dead:
        s.probe(16)

def some_histories(c):
    hs = c.histories(6 if c.thorough else 5)
    return c.rnd.sample(hs, min(len(hs), 12000 if c.thorough else 1500))

@prop("C07")
def c07(c):
    sets = SMALL + BIG
    build_for(c, sets)
    c.prebuild([(b, p) for p in C1 for b in ("ref", "avx2")])
    hs = some_histories(c)
    def hist(it, p, part, n, of):
        S = Scheme(p)
        seeds = [it.bytes(48) for _ in range(3)]
        msgs = [b"", b"a", it.bytes(40)]
        mine = it.rnd.sample(hs, min(n, len(hs))) if n else hs[part::of]
        for i, h in enumerate(mine):
            s = c.session(p, [rot(part + i)[0]] if not n else rot(part + i), f"history {p}")
            replay(it, s, S, h, seeds, msgs)
            s.done(group="hist")
    def plain(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first), f"run {p}")
        n = (40 if p in MICRO + EDGE else 6 if p in ROUND else 3) * (5 if c.thorough else 1)
        s.rng(it.bytes(48))
        for i in range(n):
            if i % 5 == 0:
                s.keypair()
            s.sign(len(s.keys), msg(it, i) if i % 2 else b"same message")
            if i % 3 == 0 and not s.dead:
                s.open(len(s.keys), len(s.sigs))
            if i % 4 == 0:
                s.probe(it.rnd.randrange(1, 40))
        s.probe(64)
        s.done()
    def real(it, p):
        s = c.session(p, ["ref", "avx2"], f"run {p}")
        s.rng(it.bytes(48)); s.keypair(); s.sign(1, b"same"); s.sign(1, b"same"); s.probe(8)
        s.keypair(); s.sign(2, b"same")
        if not s.dead: s.open(2, 3)
        s.probe(8)
        s.done()
    run(c, real, C1)
    run(c, hist, [("micro", k, 0, 8) for k in range(8)] + [(p, i, 1500 if c.thorough else 60, 1) for i, p in enumerate(["micro3", "micro5", "e9", "e12", "e8", "e7"])])
    run(c, plain, [(p, i % 3) for i, p in enumerate(sets)])

@prop("C08")
def c08(c):
    std = C1 + C3 + C5
    c.prebuild([(b, p) for p in SMALL + BIG for b in ALL3] + [(b, p) for p in std for b in ("ref", "avx2")])
    def maps(it, p, first):
        S = Scheme(p)
        bs = rot(first) if p in SMALL + BIG else ["ref", "avx2"]
        s = c.session(p, bs, f"maps {p}")
        seed, salt = it.bytes(S.SL), it.bytes(S.HL)
        # one map per round; rounds with one byte or bit in common
        rounds = range(S.T) if c.thorough or S.T < 300 else sorted({r for r in range(S.T) if r % 256 in (0, 1, 255)} | {S.T - 1} | set(it.rnd.sample(range(S.T), 60)))
        for r in rounds:
            ephem(s, seed, salt, r)
        r0 = it.rnd.randrange(S.T)
        one = p in ("micro", "micro3", "micro5", "d1", "d3", "d5", "c1b", "c3s", "c5s") or c.thorough
        for i in range(8 * S.HL) if one else it.rnd.sample(range(8 * S.HL), 16):
            ephem(s, seed, flip(salt, i), r0)
        for i in range(8 * S.SL) if one else it.rnd.sample(range(8 * S.SL), 16):
            ephem(s, flip(seed, i), salt, it.rnd.randrange(S.T))
        ps = it.bytes(S.PL)
        for i in [None] + (list(range(8 * S.PL)) if one else it.rnd.sample(range(8 * S.PL), 16)):
            priv(s, ps if i is None else flip(ps, i))
        for v in (0, 255):
            ephem(s, bytes([v] * S.SL), bytes([v] * S.HL), S.T - 1); priv(s, bytes([v] * S.PL))
        for _ in range(100 if c.thorough else 10):
            ephem(s, it.bytes(S.SL), it.bytes(S.HL), it.rnd.randrange(S.T)); priv(s, it.bytes(S.PL))
        s.done(group="maps")
    def sigs(it, p, first):
        s = c.session(p, rot(first) if p not in C1 else ["ref", "avx2"], f"signatures {p}")
        n = (20 if p in MICRO + EDGE else 4 if p in ROUND else 2) * (6 if c.thorough else 1)
        history(it, s, Scheme(p), 2 if p not in C1 else 1, n, opens=False).done(group="sign")
    run(c, maps, [(p, i % 3) for i, p in enumerate(MICRO + BIG + std + (EDGE + ROUND if c.thorough else []))])
    run(c, sigs, [(p, i % 3) for i, p in enumerate(C1 + SMALL + BIG)])

@prop("C09")
def c09(c):
    build_for(c, SMALL + BIG)
    c.prebuild([(b, p) for p in C1 for b in ("ref", "avx2")] + [("avx2", p) for p in C3 + C5])
    if c.thorough:
        c.prebuild([("ref", p) for p in C3 + C5])
    def keys(it, p, first, n):
        s = c.session(p, rot(first), f"keys {p}")
        s.rng(it.bytes(48))
        for i in range(n):
            s.keypair(it.rnd.choice((0, 0xA5, 0xFF)))
        # signing uses the same maps
        for i in range(0, n, max(1, n // (4 if p in BIG else 10))):
            s.sign(i + 1, msg(it, i))
        s.done()
    def real(it, p, bs, n):
        s = c.session(p, bs, f"keys {p}")
        s.rng(it.bytes(48))
        for i in range(n):
            s.keypair(0xA5)
        if p in C1:
            s.sign(n, b"x")
        s.done()
    def kin(it, p, first):
        s = c.session(p, rot(first), f"related keys {p}")
        related(it, s, Scheme(p), 24, opens=False).done()
    run(c, kin, [(p, i % 3) for i, p in enumerate(MICRO + EDGE)])
    m = 6 if c.thorough else 1
    run(c, real, [(p, ("ref", "avx2"), 6 * m) for p in C1] + [(p, ("ref", "avx2") if c.thorough else ("avx2",), m) for p in C3 + C5])
    run(c, keys, [(p, i % 3, 150 * m if p in MICRO else 40 * m if p in EDGE + ROUND else {"d1": 12, "d3": 9, "d5": 6}[p] * m) for i, p in enumerate(BIG + SMALL)])

# --- linear algebra ----------------------------------------------------------
def deficient(it, S, mode):
    """matrices whose rows are dependent"""
    K, N = S.K, S.N
    m = rand_rows(it, K, N, it.rnd.choice((0, 0, 1)))
    if mode == 0:
        m[-1] = list(m[0])
    elif mode == 1:
        m[it.rnd.randrange(K)] = [0] * N
    elif mode == 2:
        i, j = it.rnd.sample(range(K), 2)
        f = it.rnd.randrange(1, Q)
        m[i] = [x * f % Q for x in m[j]]
    elif mode == 3:
        c = [it.rnd.randrange(Q) for _ in range(K - 1)]
        m[-1] = [sum(a * m[i][j] for i, a in enumerate(c)) % Q for j in range(N)]
    elif mode == 4:
        m = [[0] * N for _ in range(K)]
    elif mode == 5:
        m = [[0] * (N - K + 1) + [it.rnd.randrange(Q) for _ in range(K - 1)] for _ in range(K)]
    else:
        r = it.rnd.randrange(1, K)
        base = rand_rows(it, r, N)
        m = [[sum(c[i] * base[i][j] for i in range(r)) % Q for j in range(N)] for c in ([it.rnd.randrange(Q) for _ in range(r)] for _ in range(K))]
    return m
def all_pivots(S):
    import itertools
    return itertools.combinations(range(S.N), S.K)

@prop("C10")
def c10(c):
    models.add(c, "rref")
    c.overrides()
    build_for(c, ["micro", "micro3", "micro5"] + BIG)
    def small(it, p, part, of):
        S = Scheme(p)
        s = c.session(p, rot(part), f"reductions {p} {part}")
        sets = list(all_pivots(S))
        if p != "micro" and not (c.thorough and p == "micro3"):
            sets = it.rnd.sample(sets, (6000 if c.thorough else 700))
        for i, piv in enumerate(sets[part::of]):
            m = reduced(it, S, piv, it.rnd.choice((0, 0, 1)))
            rref(s, m if i % 7 == 0 else scramble(it, m))
        for mode in range(7):
            for _ in range(40 if c.thorough else 6):
                rref(s, deficient(it, S, mode))
        for mode in (0, 1, 2):
            for _ in range(300 if c.thorough else 30):
                rref(s, rand_rows(it, S.K, S.N, mode))
        # identity, its reverse, and rows that have to be exchanged
        for d in (1, 126):
            rref(s, [[d if j == i else 0 for j in range(S.N)] for i in range(S.K)])
            rref(s, [[d if j == S.K - 1 - i else 0 for j in range(S.N)] for i in range(S.K)])
            rref(s, [[d if j == S.N - 1 - i else 0 for j in range(S.N)] for i in range(S.K)])
        s.done()
    def big(it, p, part):
        S = Scheme(p)
        s = c.session(p, rot(part), f"reductions {p} {part}")
        sets = list(pivot_sets(it, S, 8 if c.thorough else 2))
        for i, piv in enumerate(sets[part::2]):
            m = reduced(it, S, piv, i % 2)
            rref(s, scramble(it, m))
        for mode in (range(7) if c.thorough else (part, 2 + part, 3 + part, 6)):
            rref(s, deficient(it, S, mode))
        rref(s, rand_rows(it, S.K, S.N, 0)); rref(s, rand_rows(it, S.K, S.N, 1)); rref(s, rand_rows(it, S.K, S.N, 2))
        s.done()
    run(c, small, [(p, k, 3) for p in MICRO for k in range(3)])
    run(c, big, [(p, k) for p in BIG for k in range(2)])

def columns(it, S, kind, nc, k):
    """columns with ties, zeros, long common beginnings"""
    if kind == 0:
        return [[it.rnd.randrange(Q) for _ in range(k)] for _ in range(nc)]
    if kind == 1:
        return [[it.rnd.choice((0, 1, 126)) for _ in range(k)] for _ in range(nc)]
    if kind == 2:       # differ only in the last entry
        base = [it.rnd.randrange(Q) for _ in range(k - 1)]
        return [base + [it.rnd.randrange(Q)] for _ in range(nc)]
    if kind == 3:       # few distinct columns, scaled
        base = [[it.rnd.randrange(Q) for _ in range(k)] for _ in range(3)]
        return [[x * f % Q for x in it.rnd.choice(base)] for f in (it.rnd.randrange(1, Q) for _ in range(nc))]
    if kind == 4:       # leading zeros
        out = []
        for _ in range(nc):
            z = it.rnd.randrange(k + 1)
            out.append([0] * z + [it.rnd.randrange(Q) for _ in range(k - z)])
        return out
    if kind == 5:       # unit vectors and zero columns
        return [[it.rnd.randrange(1, Q) if i == u else 0 for i in range(k)] for u in (it.rnd.randrange(k + 1) for _ in range(nc))]
    if kind == 6:       # differ at one place in the middle
        base = [it.rnd.randrange(Q) for _ in range(k)]
        out = []
        for _ in range(nc):
            q = list(base)
            q[it.rnd.randrange(k)] = it.rnd.randrange(Q)
            out.append(q)
        return out
    return [[0] * k for _ in range(nc)]
def from_cols(cols):
    return [list(r) for r in zip(*cols)]

@prop("C11")
def c11(c):
    models.add(c, "canon")
    c.overrides()
    build_for(c, MICRO + BIG)
    def go(it, p, part):
        S = Scheme(p)
        big = p in BIG
        s = c.session(p, rot(part), f"canonical forms {p} {part}")
        kinds = list(range(8))
        for kind in kinds if not big or c.thorough else kinds[part::2]:
            for _ in range((1 if big else 40) * (4 if c.thorough else 1)):
                cols = columns(it, S, kind, S.N, S.K)
                lexmin(s, from_cols(cols))
                cols = columns(it, S, kind, S.N - S.K, S.K)
                lexsort(s, from_cols(cols))
                norm = []
                for q in cols:
                    f = INV[next((x for x in q if x), 0)] or 1
                    norm.append([x * f % Q for x in q])
                lexsort(s, from_cols(norm))
                it.rnd.shuffle(norm)
                lexsort(s, from_cols(norm))
                # a generator with these columns beside the pivots, hidden by a map
                m = [[0] * S.N for _ in range(S.K)]
                piv = sorted(it.rnd.sample(range(S.N), S.K))
                rest = [j for j in range(S.N) if j not in piv]
                for i, j in enumerate(piv): m[i][j] = 1
                for q, j in zip(cols, rest):
                    for i in range(S.K): m[i][j] = q[i]
                mc, mp = rand_mono(it, S.N)
                commit(s, m, mc, mp)
                if not big:
                    # the same code, columns beside the pivots scaled and permuted
                    it.rnd.shuffle(rest)
                    m2 = [[0] * S.N for _ in range(S.K)]
                    for i, j in enumerate(piv): m2[i][j] = 1
                    for q, j in zip(cols, rest):
                        f = it.rnd.randrange(1, Q)
                        for i in range(S.K): m2[i][j] = q[i] * f % Q
                    commit(s, m2, [1] * S.N, list(range(S.N)))
        for n, (mc, mp) in enumerate(monos(it, S.N, 4 if big else 40)):
            if big and not c.thorough and n % 3 != part: continue
            commit(s, scramble(it, reduced(it, S, it.rnd.sample(range(S.N), S.K))) if not big else reduced(it, S, range(S.K)), mc, mp)
        s.done()
    run(c, go, [(p, k) for p in BIG + MICRO for k in range(2)])

@prop("C12")
def c12(c):
    models.add(c, "mono")
    build_for(c, MICRO + BIG)
    def go(it, p, part):
        S = Scheme(p)
        big = p in BIG
        s = c.session(p, rot(part), f"monomial maps {p} {part}")
        n = (8 if big else 60) * (5 if c.thorough else 1)
        ms = list(monos(it, S.N, n))
        s.event("monoid", ("monoid",))
        for a in ms:
            monoinv(s, a)
            monomul(s, a, it.rnd.choice(ms))
            monomul(s, it.rnd.choice(ms), a)
            compose(s, a, rand_act(it, S))
        as_ = list(acts(it, S, n // 2))
        for b in as_:
            compose(s, it.rnd.choice(ms), b)
        # products act like their factors in turn; a map and its inverse cancel
        def mul(x, y):      # what the code itself says the product is
            ev = monomul(s, x, y)
            return (ev["c"], ev["p"]) if ev else None
        for _ in range(1 if big else 15):
            g = rand_rows(it, S.K, S.N, it.rnd.choice((0, 0, 1, 2)))
            a, b = it.rnd.choice(ms), it.rnd.choice(ms)
            ab = mul(a, b)
            if ab: gmul(s, g, *ab)
            e1 = gmul(s, g, *a)
            if e1: gmul(s, e1["g"], *b)
            iv = monoinv(s, a)
            if iv and e1: gmul(s, e1["g"], iv["c"], iv["p"])
            applyact(s, g, it.rnd.choice(as_))
        for i, b in enumerate(as_):
            if not big or i % 3 == part:
                applyact(s, rand_rows(it, S.K, S.N), b)
        s.done()
    run(c, go, [(p, k) for p in BIG + MICRO for k in range(2)])

@prop("C13")
def c13(c):
    models.add(c, "mono")
    sets = MICRO + BIG
    build_for(c, sets)
    c.prebuild([(b, p) for p in ("c1s", "c3s", "c5s") for b in ALL3])
    def go(it, p, part):
        S = Scheme(p)
        s = c.session(p, rot(part), f"responses {p}")
        n = 400 if c.thorough else 40
        for b in acts(it, S, n):
            packact(s, b, it.rnd.choice((0, 0xA5, 0xFF)))
        # one field at its ends, the others fixed
        top = min(S.N, 1 << S.posbits) - 1
        for i in range(S.K) if S.K < 20 or c.thorough else sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, S.K - 1, S.K - 2, S.K - 3, S.K - 4} | set(it.rnd.sample(range(S.K), 10))):
            for v, w, bg in ((top, 126, 0), (0, 0, 1), (1 << (i % S.posbits), 1 << (i % 7), 0)):
                q = [bg * top] * S.K; d = [bg * 126] * S.K
                q[i] = min(v, top); d[i] = min(w, 126)
                packact(s, (d, q), 0xFF if bg == 0 else 0)
        for _ in range(n):
            unpackact(s, it.bytes(S.actionbytes))
        for v in (0, 255, 0x55, 0xAA):
            unpackact(s, bytes([v] * S.actionbytes))
        for i in range(8 * S.actionbytes) if S.K < 20 or c.thorough else it.rnd.sample(range(8 * S.actionbytes), 100):
            unpackact(s, flip(bytes(S.actionbytes), i))
        s.done()
    run(c, go, [(p, i % 3) for i, p in enumerate(sets + ["c1s", "c3s", "c5s"])])

@prop("C14")
def c14(c):
    models.add(c, "rref")
    sets = MICRO + BIG
    build_for(c, sets)
    def go(it, p, part):
        S = Scheme(p)
        big = p in BIG
        s = c.session(p, rot(part), f"generators {p}")
        if p == "micro":
            pivs = list(all_pivots(S))[part::2]
        else:
            pivs = list(pivot_sets(it, S, (20 if big else 1500) if c.thorough else (2 if big else 150)))
            if big: pivs = pivs[part::2]
        for i, piv in enumerate(pivs):
            m = reduced(it, S, piv, i % 2)
            if i % 3 == 0:      # all nonzero where they can be
                m = [[126 if x and j not in piv else x for j, x in enumerate(r)] for r in m]
            packrref(s, m, flags_of(S, piv), it.rnd.choice((0, 0xA5, 0xFF)))
            if not big or i % 2 == 0:
                compact(s, m, flags_of(S, piv))
            if not big or i % 4 == 1:
                unpackrref(s, S.packrref(m, flags_of(S, piv)))
        for _ in range((10 if big else 200) if c.thorough else (1 if big else 40)):
            piv = sorted(it.rnd.sample(range(S.N), S.K))
            b = bytearray(S.packrref([[0] * S.N for _ in range(S.K)], flags_of(S, piv)))
            b[S.fb:] = it.bytes(S.rrefbytes - S.fb)
            unpackrref(s, bytes(b))
            sfexpand(s, it.bytes(S.SL))
        s.done()
    run(c, go, [(p, k) for p in BIG + MICRO for k in range(2)])

# --- malformed input ---------------------------------------------------------
def spoilers(it, S):
    """ways in which the i-th response of a forged signature is not a map"""
    for slot in range(S.W):
        def mk(f, slot=slot):
            def g(i, p, co):
                return f(list(p), list(co)) if i == slot else (p, co)
            return g
        for j in sorted({0, S.K - 1, it.rnd.randrange(S.K)}):
            yield f"zero {slot} {j}", mk(lambda p, co, j=j: (p, co[:j] + [0] + co[j+1:]))
            yield f"127 {slot} {j}", mk(lambda p, co, j=j: (p, co[:j] + [127] + co[j+1:]))
        for a, b in ((0, 1), (0, S.K - 1), (S.K - 2, S.K - 1), tuple(sorted(it.rnd.sample(range(S.K), 2)))):
            yield f"twice {slot} {a} {b}", mk(lambda p, co, a=a, b=b: (p[:b] + [p[a]] + p[b+1:], co))
        yield f"high {slot}", mk(lambda p, co: (p[:-1] + [S.N], co))

@prop("C15")
def c15(c):
    models.add(c, "frame")
    sets = MICRO + BIG
    build_for(c, sets)
    c.prebuild([(b, p) for p in ("c1s", "c3s", "c5s") for b in ALL3])
    def pred(it, p, part):
        S = Scheme(p)
        s = c.session(p, rot(part), f"predicate {p}")
        for b in acts(it, S, 20):
            valid(s, b)
        full = S.K < 20 or c.thorough
        idx = range(S.K) if full else sorted(set(range(0, S.K, 8)) | {1, 7, S.K - 1, S.K - 2} | set(range(31, S.K, 32)))
        for i in idx:
            co, pp = rand_act(it, S)
            for v in (0, 127, 128, 255, 126, 1):
                valid(s, (co[:i] + [v] + co[i+1:], pp))
            for v in {S.N, S.N - 1, (1 << S.posbits) - 1, S.N + 1} - set(pp):
                if v < (1 << S.posbits):
                    valid(s, (co, pp[:i] + [v] + pp[i+1:]))
            for j in idx if S.K < 20 else it.rnd.sample(range(S.K), 4) + [0, S.K - 1, (i + 1) % S.K]:
                if i != j:
                    valid(s, (co, pp[:i] + [pp[j]] + pp[i+1:]))
        for v in range(0, S.N, 1 if full else 3):     # every position as the double one
            co, pp = rand_act(it, S)
            if v not in pp: pp[0] = v
            i = pp.index(v)
            j = (i + 1 + it.rnd.randrange(S.K - 1)) % S.K
            valid(s, (co, pp[:j] + [v] + pp[j+1:]))
        s.done(group="pred")
    def forged(it, p, part):
        S = Scheme(p)
        s = c.session(p, rot(part), f"forged {p}")
        s.rng(it.bytes(48)); s.keypair(); s.sign(1, b"m")
        if s.dead: return s.done()
        s.open(1, 1)
        pk = bytes(s.keys[0]["pk"])
        for name, sp in spoilers(it, S):
            for _ in range(3 if c.thorough else 1):
                sm = S.forge(pk, b"forged", sp, it.rnd)
                if sm: s.openraw(None, sm, k=1)
        # forged without any flaw: shows that forging works here
        sm = S.forge(pk, b"forged", lambda i, p_, co: (p_, co), it.rnd)
        if sm: s.openraw(None, sm, k=1)
        s.done(group="forged")
    def spoiled(it, p, part):
        # honest signatures with one response spoiled
        S = Scheme(p)
        s = c.session(p, rot(part), f"spoiled {p}")
        s.rng(it.bytes(48)); s.keypair(); s.sign(1, b"m")
        if s.dead: return s.done()
        d = S.split(bytes(s.sigs[0]["sm"]))
        for i in range(S.W) if p in SMALL else (0, S.W - 1):
            pp, co = S.unpackact(d["acts"][i])
            for q, e in ((pp, [0] + co[1:]), (pp, co[:-1] + [127]), (pp[:-1] + pp[:1], co), ([S.N if S.N < (1 << S.posbits) else pp[1]] + pp[1:], co)):
                s.openraw(None, S.join(dict(d, acts=d["acts"][:i] + [S.packact(q, e)] + d["acts"][i+1:])), k=1)
        s.done(group="spoiled")
    run(c, forged, [(p, k) for p in MICRO for k in range(3 if c.thorough else 1)] )
    run(c, pred, [(p, i % 3) for i, p in enumerate(sets + ["c1s", "c3s", "c5s"])])
    build_for(c, ["e13", "e33"])
    run(c, spoiled, [(p, i % 3) for i, p in enumerate(MICRO + BIG + ["e13", "e33"])])

def junk(it, S, sm):
    """strings of all kinds, made from a genuine one: (string, genuine?)"""
    d = S.split(sm)
    n0 = len(d["seeds"])
    for k in sorted(set(range(0, min(len(sm), 40))) | {S.sigbytes(0) + e for e in (-2, -1, 0, 1, 2)} | {S.sigbytes(n) + e for n in (1, n0, S.maxseeds) for e in (-1, 0, 1)}):
        if 0 <= k <= len(sm):
            yield sm[:k]
            yield sm[len(sm)-k:]
        yield bytes(k) if k >= 0 else b""
        yield bytes([255]) * max(k, 0)
        r = it.bytes(max(k, 0))
        yield r
        for n in {0, 1, S.maxseeds, S.maxseeds + 1, 255}:
            if r: yield r[:-1] + bytes([n])
    # every seed count, the string as it is
    for n in range(256):
        yield sm[:-1] + bytes([n])
    # other seed counts with the length to match, and with the digest kept
    for n in {0, 1, n0 - 1, n0 + 1, S.maxseeds, S.maxseeds + 1, S.maxseeds + 2, 255} - {-1}:
        seeds = (d["seeds"] + [it.bytes(S.SL) for _ in range(max(0, n - n0))])[:n]
        yield S.join(dict(d, seeds=seeds))
        yield S.join(dict(d, seeds=seeds, m=b""))
        yield S.join(dict(d, seeds=seeds, digest=it.bytes(S.HL)))
    # truncations and extensions at either end
    for k in range(1, 40):
        yield sm[:-k]
        yield sm[k:]
    for k in (1, 2, S.SL - 1, S.SL, S.SL + 1, 255):
        yield sm + it.bytes(k)
        yield it.bytes(k) + sm
        yield sm + bytes([n0]) * k
    # random content with the right count for its digest
    for _ in range(6):
        dg = it.bytes(S.HL)
        x = S.challenge(dg)[0]
        yield S.join(dict(m=it.bytes(3), salt=it.bytes(S.HL), acts=[it.bytes(S.actionbytes) for _ in range(S.W)], digest=dg, seeds=[it.bytes(S.SL) for _ in S.published(x)]))
        yield S.join(dict(m=b"", salt=it.bytes(S.HL), acts=[S.packact(*reversed(rand_act(it, S))) for _ in range(S.W)], digest=dg, seeds=[it.bytes(S.SL) for _ in S.published(x)]))

@prop("C16", assumptions=["memory safety is observed by AddressSanitizer and UndefinedBehaviorSanitizer on exactly sized heap blocks, and by canaries"])
def c16(c):
    models.add(c, "frame")
    sets = MICRO + EDGE + ["t1b", "t3b", "t5b", "d1", "d3", "d5"]
    c.prebuild([(b, p, "asan") for p in sets for b in ("ref", "avx2")] + [("neon", p) for p in sets])
    c.prebuild([("avx2", p, "asan") for p in C1] + ([("avx2", p, "asan") for p in C3 + C5] if c.thorough else []))
    def go(it, p, b):
        S = Scheme(p)
        s = c.session(p, [b], f"junk {p} {b}", san="asan" if b != "neon" else "")
        s.rng(it.bytes(48)); s.keypair(); s.sign(1, it.bytes(5)); s.sign(1, b"")
        if s.dead: return s.done()
        for of in (1, 2):
            s.event("open", ("open", 0xA5, hx(s.keys[0]["pk"]), hx(s.sigs[of-1]["sm"])), dict(k=1, of=of, genuine=1))
        js = [m for of in (0, 1) for m in junk(it, S, bytes(s.sigs[of]["sm"]))]
        if p not in MICRO + EDGE and not c.thorough:
            js = it.rnd.sample(js, 250 if p in ROUND else {"d1": 120, "d3": 50, "d5": 25}[p] if b == "ref" and p in BIG else 120)
        if p in C1 + C3 + C5:
            js = it.rnd.sample(js, min(len(js), 40))
        for m in js:
            s.event("open", ("open", 0xA5, hx(s.keys[0]["pk"]), hx(m)), dict(k=1, of=0, sm=list(m), genuine=0))
            if s.dead: break
        # counts which match, one bit of the rest changed
        if not s.dead:
            sm = bytes(s.sigs[0]["sm"])
            for i in it.rnd.sample(range(8 * len(sm)), 60 if p in MICRO + EDGE else 5):
                m = flip(sm, i)
                s.event("open", ("open", 0xA5, hx(s.keys[0]["pk"]), hx(m)), dict(k=1, of=0, sm=list(m), genuine=1 if p in MICRO + EDGE else 0))
        s.done()
    run(c, go, [(p, "avx2") for p in C1 + (C3 + C5 if c.thorough else [])] + [(p, b) for p in sets for b in ALL3])

def bad_elems(it, S, e):
    """malformed packed generators: (name, bytes)"""
    fl = S.unpack(e[:S.fb], 0, 1, S.N)
    on = [j for j in range(S.N) if fl[j]]
    off = [j for j in range(S.N) if not fl[j]]
    def with_flags(f, pad=0):
        return S.pack([(f, 1)], S.fb) + e[S.fb:]
    for js in ([on[0]], [on[-1]], [it.rnd.choice(on)], on[:2], on):
        yield "fewer", with_flags([0 if j in js else v for j, v in enumerate(fl)])
    for js in ([off[0]], [off[-1]], [it.rnd.choice(off)], off[:2], off[-2:], off):
        yield "more", with_flags([1 if j in js else v for j, v in enumerate(fl)])
    # bits beyond the last mark, and as many marks fewer as somebody might count them
    pad = 8 * S.fb - S.N
    for v in range(1, 1 << pad):
        for d in sorted({1, bin(v).count("1"), v, 2 * v, 16 * v}):
            if d <= len(on):
                js = it.rnd.choice((on[:d], on[len(on)-d:], it.rnd.sample(on, d)))
                b = bytearray(with_flags([0 if j in js else f for j, f in enumerate(fl)]))
                b[S.fb-1] |= (v << (8 - pad)) & 255
                yield "padding", bytes(b)
    yield "none", bytes(S.rrefbytes)
    yield "all", bytes([255]) * S.rrefbytes
    yield "inverse", with_flags([1 - v for v in fl])
    n = (S.N - S.K) * S.K
    for i in sorted({0, 1, 7, 8, n - 1, n - 2, S.N - S.K - 1, S.N - S.K, n - (S.N - S.K), it.rnd.randrange(n), it.rnd.randrange(n)}):
        b = bytearray(e)
        v = int.from_bytes(b[S.fb:], "little") | (127 << (7 * i))
        yield f"entry {i}", bytes(b[:S.fb]) + v.to_bytes(S.rrefbytes - S.fb, "little")
    v = (1 << (7 * n)) - 1
    yield "entries", e[:S.fb] + v.to_bytes(S.rrefbytes - S.fb, "little")
    for _ in range(4):
        yield "random", it.bytes(S.rrefbytes)

@prop("C17", assumptions=["memory safety is observed by AddressSanitizer and UndefinedBehaviorSanitizer on exactly sized heap blocks, and by canaries"])
def c17(c):
    sets = MICRO + EDGE + ["t1b", "t3b", "t5b", "d1", "d3", "d5"]
    c.prebuild([(b, p, "asan") for p in sets for b in ("ref", "avx2")] + [("neon", p) for p in sets])
    c.prebuild([("avx2", p, "asan") for p in C1])
    def go(it, p, b):
        S = Scheme(p)
        s = c.session(p, [b], f"bad keys {p} {b}", san="asan" if b != "neon" else "")
        s.rng(it.bytes(48)); s.keypair()
        for _ in range(3 if p in MICRO + EDGE else 1):
            s.sign(1, it.bytes(5))
        if s.dead: return s.done()
        pk = bytes(s.keys[0]["pk"])
        for of in range(1, len(s.sigs) + 1):
            s.open(1, of)
            sm = bytes(s.sigs[of-1]["sm"])
            elems = range(1, S.S) if p in MICRO + EDGE else [it.rnd.randrange(1, S.S)]
            for i in elems:
                o = S.SL + (i - 1) * S.rrefbytes
                bad = list(bad_elems(it, S, pk[o:o+S.rrefbytes]))
                if p not in MICRO + EDGE and not c.thorough:
                    bad = it.rnd.sample(bad, 12 if p in ROUND else 8)
                for name, e in bad:
                    k = pk[:o] + e + pk[o+S.rrefbytes:]
                    s.event("open", ("open", 0xA5, hx(k), hx(sm)), dict(k=0, of=of, pk=list(k)))
                    if s.dead: return s.done()
            for k in (it.bytes(len(pk)), bytes(len(pk)), bytes([255]) * len(pk), flip(pk, it.rnd.randrange(8 * S.SL)), pk[1:] + pk[:1]):
                s.event("open", ("open", 0xA5, hx(k), hx(sm)), dict(k=0, of=of, pk=list(k)))
                if s.dead: return s.done()
        if p in MICRO:
            for name, e in bad_elems(it, S, S.keyelem(pk, 1)):
                unpackrref(s, e)
        s.done()
    def forged(it, p, b):
        # signatures forged for a malformed key: the hash would match if the
        # malformed element were taken for what it looks like
        S = Scheme(p)
        s = c.session(p, [b], f"forged for bad keys {p} {b}")
        s.rng(it.bytes(48)); s.keypair()
        if s.dead: return s.done()
        pk = bytes(s.keys[0]["pk"])
        for i in range(1, S.S):
            o = S.SL + (i - 1) * S.rrefbytes
            e0 = pk[o:o+S.rrefbytes]
            # an entry which is zero, written as 127
            m, fl = S.unpackrref(e0)
            np_ = [j for j in range(S.N) if not fl[j]]
            for _ in range(4 if c.thorough else 2):
                a, z = it.rnd.randrange(S.K), it.rnd.choice(np_)
                m2 = [list(r) for r in m]; m2[a][z] = 0
                zero = S.packrref(m2, fl)
                m2[a][z] = 127
                bad = S.packrref(m2, fl)
                k0 = pk[:o] + zero + pk[o+S.rrefbytes:]
                x = [0] * S.T
                hit = it.rnd.sample(range(S.T), S.W)
                for r in hit: x[r] = it.rnd.randrange(1, S.S)
                x[hit[0]] = i
                sm = S.forge(k0, b"f", lambda n, p_, co: (p_, co), it.rnd, x=x)
                if sm:
                    for e in (zero, bad):
                        k = pk[:o] + e + pk[o+S.rrefbytes:]
                        s.event("open", ("open", 0xA5, hx(k), hx(sm)), dict(k=0, of=0, pk=list(k), sm=list(sm)))
            # too few or too many pivots, read as the code would read them
            for f in (0, 1):
                for _ in range(4 if c.thorough else 2):
                    fl2 = list(fl)
                    j = it.rnd.choice([j for j in range(S.N) if fl[j] != f])
                    fl2[j] = f
                    bad = S.pack([(fl2, 1)], S.fb) + e0[S.fb:]
                    k = pk[:o] + bad + pk[o+S.rrefbytes:]
                    x = [0] * S.T
                    hit = it.rnd.sample(range(S.T), S.W)
                    for r in hit: x[r] = i
                    sm = S.forge(k, b"f", lambda n, p_, co: (p_, co), it.rnd, x=x)
                    if sm:
                        s.event("open", ("open", 0xA5, hx(k), hx(sm)), dict(k=0, of=0, pk=list(k), sm=list(sm)))
        s.done(group="forged")
    c.prebuild([(b, p) for p in MICRO for b in ("ref", "avx2")])
    run(c, forged, [(p, b) for p in MICRO for b in ALL3])
    run(c, go, [(p, "avx2") for p in C1] + [(p, b) for p in sets for b in ALL3])

# --- back ends ---------------------------------------------------------------
@prop("C18", assumptions=["the NEON back end is executed through an emulation of its intrinsics"])
def c18(c):
    sets = SMALL + BIG
    build_for(c, sets + C1)
    slow = C3 + C5
    c.prebuild([(b, p) for p in slow for b in ("avx2", "neon")] + ([("ref", p) for p in slow] if c.thorough else [("ref", "c3b"), ("ref", "c3s")]))
    def toy(it, p, first):
        S = Scheme(p)
        for r in range(4 if c.thorough else 1):
            s = c.session(p, rot(first), f"lockstep {p}")
            n = 25 if p in MICRO + EDGE else 5 if p in ROUND else 3
            params(s, 0)
            history(it, s, S, 3 if p in MICRO + EDGE else 1, n, i0=first * 8)
            if not s.dead:
                for of in range(1, min(n, 4) + 1):
                    sm, k = bytes(s.sigs[of-1]["sm"]), bytes(s.keys[0]["pk"])
                    ms = list(mutants(it, S, sm, bytes(s.sigs[of % n]["sm"])))
                    for m in (ms if p in MICRO + EDGE else it.rnd.sample(ms, 4)):
                        s.openraw(None, m, k=1)
                    if p in MICRO + EDGE:
                        for i in range(8): s.openraw(flip(k, it.rnd.randrange(8 * len(k))), sm)
                        for name, e in bad_elems(it, S, S.keyelem(k, 1)):
                            s.openraw(k[:S.SL] + e + k[S.SL+S.rrefbytes:], sm)
                        for m in it.rnd.sample(list(junk(it, S, sm)), 60):
                            s.openraw(None, m, k=1)
                if p in MICRO: long_messages(it, s, S)
            s.done()
    def keys(it, p, first):
        # many keys: unusual pivots of public generators
        s = c.session(p, rot(first), f"keys {p}")
        s.rng(it.bytes(48))
        for _ in range(150 if p in MICRO else 20): s.keypair()
        s.done(group="keys")
    def forged(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first), f"forged {p}")
        s.rng(it.bytes(48)); s.keypair()
        if s.dead: return s.done()
        for name, sp in spoilers(it, S):
            sm = S.forge(bytes(s.keys[0]["pk"]), b"x", sp, it.rnd)
            if sm: s.openraw(None, sm, k=1)
        strange_keys(it, s, S, 240 if c.thorough else 60)
        s.done(group="forged")
    def real(it, p, bs, n):
        S = Scheme(p)
        s = c.session(p, bs, f"lockstep {p}")
        params(s, 1)
        history(it, s, S, 1, n, i0=3)
        if not s.dead:
            sm = bytes(s.sigs[0]["sm"])
            for m in it.rnd.sample(list(mutants(it, S, sm, None)), 2 if p in C1 else 1): s.openraw(None, m, k=1)
        s.done()
    if c.thorough:
        jobs = [(p, ("ref", "avx2", "neon"), 2) for p in C5 + C3] + [(p, ("ref", "avx2", "neon"), 10) for p in C1]
    else:
        jobs = [(p, ("avx2", "neon"), 1) for p in ("c5b", "c5s")] + [(p, ("ref", "avx2", "neon"), 1) for p in C3] + [(p, ("ref", "avx2", "neon"), 2) for p in C1]
    run(c, real, jobs)
    run(c, toy, [(p, i % 3) for i, p in enumerate(BIG + SMALL)])
    run(c, keys, [(p, i % 3) for i, p in enumerate(BIG + MICRO)])
    run(c, forged, [(p, i % 3) for i, p in enumerate(MICRO)])

# --- hashes ------------------------------------------------------------------
RATES = {0: 168, 1: 136, 2: 136, 3: 104, 4: 72}
def inc(s, ops):
    toks = []
    for o in ops:
        if o["o"] == "i": toks.append(f"i{o['c']}{o['k']}")
        elif o["o"] == "a": toks.append(f"a{o['c']}:{hx(bytes(o['d']))}")
        elif o["o"] == "f": toks.append(f"f{o['c']}")
        else: toks.append(f"s{o['c']}:{o['n']}")
    return s.event("inc", ("inc", *toks), dict(ops=ops))
def inc_ops(it, ctx, kind, ins, outs):
    ops = [dict(o="i", c=ctx, k=kind)]
    ops += [dict(o="a", c=ctx, d=list(it.bytes(n))) for n in ins]
    ops += [dict(o="f", c=ctx)]
    if kind < 2:
        ops += [dict(o="s", c=ctx, n=n) for n in outs]
    return ops
def weave(it, lists):
    lists = [list(x) for x in lists]
    out = []
    while any(lists):
        q = it.rnd.choice([x for x in lists if x])
        out.append(q.pop(0))
    return out

@prop("C19")
def c19(c):
    c.overrides()
    build_for(c, MICRO)
    def chunked(it, p, kind):
        r = RATES[kind]
        B = [0, 1, 2, 7, 8, r - 8, r - 2, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1, 3 * r]
        s = c.session(p, rot(kind), f"pieces {p} {kind}")
        for a in B:
            for b in B:
                inc(s, inc_ops(it, 0, kind, [a, b], [it.rnd.choice(B), it.rnd.choice(B), 5]))
        for a in B:
            for b in B:
                if kind < 2: inc(s, inc_ops(it, 1, kind, [it.rnd.choice(B)], [a, b, it.rnd.choice(B)]))
        for h in c.sponge_ops(r, 400 if c.thorough else 60, it.rnd):
            inc(s, inc_ops(it, 2, kind, h[0], h[1]))
        for _ in range(400 if c.thorough else 40):
            ins = [it.rnd.choice((it.rnd.randrange(5), it.rnd.choice(B), it.rnd.randrange(3 * r))) for _ in range(it.rnd.randrange(1, 9))]
            outs = [it.rnd.choice((it.rnd.randrange(5), it.rnd.choice(B), it.rnd.randrange(3 * r))) for _ in range(it.rnd.randrange(1, 9))]
            inc(s, inc_ops(it, it.rnd.randrange(8), kind, ins, outs))
        s.done()
    def several(it, p, first):
        s = c.session(p, rot(first), f"interleaved {p}")
        for _ in range(300 if c.thorough else 40):
            ls = []
            for x in range(it.rnd.randrange(2, 6)):
                kind = it.rnd.randrange(5)
                r = RATES[kind]
                ls.append(inc_ops(it, x, kind, [it.rnd.randrange(2 * r) for _ in range(3)], [it.rnd.randrange(2 * r) for _ in range(3)]))
            inc(s, weave(it, ls))
        s.done()
    def whole(it, p, first):
        s = c.session(p, rot(first), f"one call {p}")
        for kind in range(5):
            r = RATES[kind]
            for n in list(range(0, 2 * r + 2)) if c.thorough or kind in (0, 4) else sorted({0, 1, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1} | set(it.rnd.sample(range(3 * r), 60))):
                d = it.bytes(n)
                o = it.rnd.choice((0, 1, r - 1, r, r + 1, 2 * r, 2 * r + 1, it.rnd.randrange(1, 600)))
                s.event("oneshot", ("oneshot", kind, o, hx(d)), dict(kind=kind, d=list(d), n=o if kind < 2 else {2: 32, 3: 48, 4: 64}[kind]))
            for n in (1000, 5000, 20000, 70000) if kind in (0, 2, 4) or c.thorough else (5000,):
                d = it.bytes(n)
                s.event("oneshot", ("oneshot", kind, 64, hx(d)), dict(kind=kind, d=list(d), n=64 if kind < 2 else {2: 32, 3: 48, 4: 64}[kind]))
        for kind in (0, 1):
            r = RATES[kind]
            for n in sorted({0, 1, r - 1, r, r + 1, 2 * r} | set(it.rnd.sample(range(3 * r), 20))):
                d = it.bytes(n)
                a, b = it.rnd.randrange(4), it.rnd.randrange(4)
                s.event("blocks", ("blocks", kind, a, b, hx(d)), dict(kind=kind, d=list(d), n=(a + b) * r))
            d = it.bytes(50)
            for n in list(range(0, 2 * r + 3)):
                s.event("oneshot", ("oneshot", kind, n, hx(d)), dict(kind=kind, d=list(d), n=n))
        s.done()
    def streams(it, p, first):
        s = c.session(p, rot(first), f"streams {p}")
        r = 168 if p == "micro" else 136
        for _ in range(300 if c.thorough else 60):
            seed = it.bytes(it.rnd.choice((16, 24, 32, 48, 64, 96, 98, 66, 0, 1, r - 1, r, r + 1)))
            sizes = [it.rnd.choice((0, 1, 4, 8, r - 1, r, r + 1, it.rnd.randrange(3 * r))) for _ in range(it.rnd.randrange(1, 12))]
            s.event("stream", ("stream", hx(seed), *sizes), dict(seed=list(seed), sizes=sizes))
        s.event("stream", ("stream", hx(b"x"), *([8] * 300)), dict(seed=[120], sizes=[8] * 300))
        s.done()
    def vast(it, p, be, kind):
        s = c.session(p, be, f"input over 4 GiB {p} {kind} {be}")
        lo = it.rnd.randrange(10, 300)
        s.event("hugehash", ("hugehash", kind, 1, lo), dict(kind=kind, n=list(((1 << 32) + lo).to_bytes(8, "big"))))
        s.done()
    if c.thorough:
        run(c, vast, [("micro", be, k) for k in range(5) for be in ("ref", "avx2")])
    def long(it, p, kind):
        # pieces longer than 16 bits count
        s = c.session(p, rot(kind), f"long pieces {p} {kind}")
        for a in (65535, 65536, 65536 + RATES[kind] + 1):
            inc(s, inc_ops(it, 0, kind, [it.rnd.randrange(9), a, it.rnd.randrange(300)], [7, a, 5]))
        s.done()
    run(c, long, [("micro", k) for k in range(5)])
    run(c, chunked, [("micro", k) for k in range(5)])
    run(c, several, [("micro", k) for k in range(3)])
    run(c, whole, [("micro", k) for k in range(2)] + [("micro5", 2)])
    run(c, streams, [(p, i) for i, p in enumerate(MICRO)])

@prop("C20")
def c20(c):
    models.add(c, "field")
    build_for(c, MICRO + BIG)
    def tables(it, p, first):
        s = c.session(p, rot(first), f"tables {p}")
        for b in range(4):
            s.event("fqred", ("fqred", b), {"from": 4096 * b})
        s.event("fqinv", ("fqinv",))
        for a in range(127):
            s.event("fqmul", ("fqmul", a), dict(a=a))
        s.done(group="tables")
    def lanes(it, p, first):
        # every coefficient on every entry in every lane
        S = Scheme(p)
        s = c.session(p, rot(first), f"lanes {p}")
        if p in BIG:
            for t in range(0, 126, 1 if c.thorough and p == "d1" else 42 if p == "d1" else 63):
                g = [[(i * 1 + j * 5 + t) % Q for j in range(S.N)] for i in range(S.K)]
                gmul(s, g, [(t + 11 * j) % 126 + 1 for j in range(S.N)], list(range(S.N)) if t % 2 else [(j + 1) % S.N for j in range(S.N)])
            for mode in (0, 2) if p == "d5" and not c.thorough else (0, 1, 2):
                rref(s, rand_rows(it, S.K, S.N, mode))
                lexmin(s, rand_rows(it, S.K, S.N, mode))
            rref(s, [[126 if j <= i else (i + j) % 127 for j in range(S.N)] for i in range(S.K)])
        else:
            for t in range(126):
                for u in range(0, Q, S.K):
                    g = [[(u + i + j) % Q for j in range(S.N)] for i in range(S.K)]
                    gmul(s, g, [(t + j) % 126 + 1 for j in range(S.N)], list(range(S.N)))
        s.done(group="lanes")
    def elim(it, p, first):
        # pivot row scaled by every coefficient, subtracted with every factor
        S = Scheme(p)
        s = c.session(p, rot(first), f"elimination {p}")
        for a in range(1, 127):
            m = [[0] * S.N for _ in range(S.K)]
            for i in range(S.K): m[i][i] = 1
            m[0] = [a] + [(it.rnd.randrange(Q)) for _ in range(S.N - 1)]
            for i in range(1, S.K):
                m[i][0] = (a * 7 + i) % Q
                for j in range(S.K, S.N): m[i][j] = it.rnd.randrange(Q)
            for i in range(1, S.K): m[0][i] = 0
            rref(s, m)
            rref(s, rand_rows(it, S.K, S.N))
            lexmin(s, [[(a * (j + 1) + i * j) % Q for j in range(S.N)] for i in range(S.K)])
        for _ in range(3000 if c.thorough else 200):
            rref(s, rand_rows(it, S.K, S.N, it.rnd.choice((0, 0, 0, 1, 2))))
        s.done(group="elim")
    run(c, lanes, [(p, i % 3) for i, p in enumerate(BIG + MICRO)])
    run(c, tables, [(p, i % 3) for i, p in enumerate(MICRO)])
    run(c, elim, [(p, i % 3) for i, p in enumerate(MICRO)])

@prop("C21")
def c21(c):
    models.add(c, "sampler")
    c.overrides()
    sets = MICRO + BIG
    build_for(c, sets)
    def go(it, p, first):
        S = Scheme(p)
        s = c.session(p, rot(first), f"samplers {p}")
        big = p in BIG
        k = 5 if c.thorough else 1
        for kind in range(4):
            for n in list(range(1, 40)) + [63, 64, 65, S.N, S.N - S.K, 600]:
                sample(s, kind, it.bytes(it.rnd.choice((16, 32, 48))), n)
            for _ in range(60 * k):
                sample(s, kind, it.bytes(48), it.rnd.randrange(1, 300))
        for _ in range((20 if big else 150) * k):
            sd = it.bytes(48)
            s.event("samplemono", ("samplemono", hx(sd)), dict(seed=list(sd)))
        for _ in range((2 if big else 40) * k):
            sd = it.bytes(48)
            s.event("samplegen", ("samplegen", hx(sd)), dict(seed=list(sd)))
            sfexpand(s, it.bytes(S.SL))
        for _ in range((20 if big else 100) * k):
            ephem(s, it.bytes(S.SL), it.bytes(S.HL), it.rnd.randrange(S.T))
            priv(s, it.bytes(S.PL))
        s.done()
    def rare(it, p, first):
        # streams that reject much, or whose draws end with a word
        S = Scheme(p)
        s = c.session(p, rot(first), f"rare {p}")
        cand = []
        for _ in range(100000 if c.thorough else 10000):
            sd = it.bytes(16)
            st = S.xof(sd, 64)
            els, off = S.elems(st, 0, Q - 2, 1, 18)
            cand.append((off, sum(1 for e in els if e in (1, 126)), sd))
        cand.sort()
        for off, z, sd in cand[-30:] + cand[:5] + sorted(cand, key=lambda t: -t[1])[:20]:
            for kind in range(4):
                for n in (8, 9, 10, 17, 18, 19): sample(s, kind, sd, n)
        s.done()
    run(c, go, [(p, i % 3) for i, p in enumerate(BIG + MICRO)])
    run(c, rare, [(p, i % 3) for i, p in enumerate(MICRO)])

@prop("C22", assumptions=["data races are looked for by ThreadSanitizer while openings run concurrently"])
def c22(c):
    c.remember = "RememberC22"
    models.add(c, "isolation")
    build_for(c, SMALL + BIG)
    c.prebuild([(b, p, "tsan") for p in MICRO + ["e13"] for b in ("ref", "avx2")] + [(b, p) for p in C1 for b in ("ref", "avx2")])
    hs = some_histories(c)
    def hist(it, p, part, n, of):
        S = Scheme(p)
        seeds = [it.bytes(48) for _ in range(3)]
        msgs = [b"", b"a", it.bytes(40)]
        mine = it.rnd.sample(hs, min(n, len(hs))) if n else hs[part::of]
        for i, h in enumerate(mine):
            s = c.session(p, [rot(part + i)[0]] if not n else rot(part + i), f"history {p}")
            replay(it, s, S, h, seeds, msgs)
            s.done(group="hist")
    def twice(it, p, first):
        """the same run again after other operations: same results"""
        S = Scheme(p)
        bs = rot(first) if p not in C1 + ["d3", "d5"] else [("ref", "avx2")[first % 2]] if p in C1 else ["avx2", "neon"]
        s = c.session(p, bs, f"repeated {p}")
        seed, other = it.bytes(48), it.bytes(48)
        n = 6 if p in MICRO + EDGE else 1
        ms = [msg(it, i) for i in range(n)]
        for rep in range(3 if p not in C1 else 2):
            s.rng(seed); s.keypair(rep * 85)
            for m in ms: s.sign(1 + (0 if rep == 0 else 0), m, rep * 85)
            for i in range(n):
                if not s.dead: s.open(1, i + 1, fill=rep * 85)
            if rep == 0:
                s.rng(other); s.keypair()
                for i in range(n): s.sign(2, it.bytes(i))
                if not s.dead:
                    for m in it.rnd.sample(list(mutants(it, S, bytes(s.sigs[0]["sm"]), bytes(s.sigs[-1]["sm"]))), 3): s.openraw(None, m, k=1)
                    s.openraw(bytes(s.keys[1]["pk"]), bytes(s.sigs[0]["sm"]))
            s.probe(16)
        if p not in C1:
            challenge(s, it.bytes(S.HL)); ephem(s, it.bytes(S.SL), it.bytes(S.HL), 1); priv(s, it.bytes(S.PL))
            h = [1 if v else 0 for v in pattern(it, S, "random")]
            treetrip(s, it.bytes(S.SL), it.bytes(S.HL), h)
        s.done()
    def dirty(it, p, first):
        """what lies on the stack does not matter"""
        S = Scheme(p)
        big = p in BIG
        s = c.session(p, rot(first) if not big or p == "d1" else ["avx2", "neon"], f"stack contents {p}")
        seed = it.bytes(48)
        nm = 1 if big else 4
        ms = [it.bytes(9) for _ in range(nm)]
        for v in (0xA5, 0, 0xFF) if big else (0xA5, 0, 0xFF, 1, 0x7F):
            s.event("dirty", ("dirty", v), dict(v=v))
            s.rng(seed); s.keypair()
            for m in ms: s.sign(1, m)
            if s.dead: break
            for i in range(nm): s.open(1, i + 1)
            sm = bytes(s.sigs[0]["sm"])
            for i in range(2 if big else 6): s.openraw(None, flip(sm, 8 * (len(sm) // 7) * i + 3), k=1)
        s.done()
    def kin(it, p, first):
        """keys with much in common in turn, then once more in another order"""
        S = Scheme(p)
        s = c.session(p, rot(first), f"related keys {p}")
        seed = it.bytes(48)
        n = 24 if p in MICRO else 8
        sks = relatives(it, S, n)
        for sk in sks: s.importkey(sk, S.pubkey(sk) if p not in BIG else b"")
        for rep in range(3):
            for i in it.rnd.sample(range(1, n + 1), n):
                s.rng(seed); s.sign(i, b"m", 85 * rep)
                if s.dead: return s.done()
                if p not in BIG: s.open(i, len(s.sigs))
        s.done()
    run(c, kin, [(p, i % 3) for i, p in enumerate(["d1"] + MICRO + EDGE)])
    def threads(it, p, b, san):
        S = Scheme(p)
        s = c.session(p, [b], f"threads {p} {b} {san}", san=san)
        s.rng(it.bytes(48))
        jobs = []
        for k in (1, 2):
            s.keypair()
            for _ in range(3):
                s.sign(k, it.bytes(it.rnd.randrange(60)))
                if s.dead: return s.done()
                pk, sm = bytes(s.keys[k-1]["pk"]), bytes(s.sigs[-1]["sm"])
                s.open(k, len(s.sigs))
                jobs.append((pk, sm))
                bad = flip(sm, it.rnd.randrange(8 * (len(sm) - 1)))
                s.openraw(pk, bad)
                jobs.append((pk, bad))
        for n, reps in ((2, 20), (8, 10)) if not san else ((4, 3),):
            if s.dead: break
            args = []
            for pk, sm in jobs: args += [hx(pk), hx(sm)]
            s.event("openmt", ("openmt", n, reps if p not in C1 + BIG else 1, len(jobs), *args), dict(jobs=[dict(pk=list(pk), sm=list(sm)) for pk, sm in jobs]))
        s.done(group="threads")
    run(c, threads, [(p, b, "tsan") for p in MICRO + ["e13"] for b in ("ref", "avx2")])
    run(c, threads, [(p, b, "") for p in MICRO + ["e33", "t5b", "d1"] for b in ALL3])
    run(c, twice, [(p, i) for i, p in enumerate(C1)] + [(p, i % 3) for i, p in enumerate(SMALL + BIG)])
    run(c, dirty, [(p, i % 3) for i, p in enumerate(MICRO + EDGE + BIG)])
    run(c, hist, [("micro", k, 0, 8) for k in range(8)] + [(p, i, 1000 if c.thorough else 60, 1) for i, p in enumerate(["micro3", "micro5", "e9", "e12"])])

# --- the generators of the known-answer tools ----------------------------------
# AES-256 of 1, 2, 3 under the zero key: an entropy input exclusive-ored with
# it becomes the first key and V
FIRST = bytes.fromhex("530f8afbc74536b9a963b4f1c4cb738bcea7403d4d606b6e074ec5d3baf39d18726003ca37a62a74d1a2f58e7506358e")
def be(n, k):
    return list(n.to_bytes(k, "big"))
def drbginit(s, entropy, pers=b""):
    return s.event("drbginit", ("init", hx(entropy), hx(pers)), dict(entropy=list(entropy), pers=list(pers)))
def drbgbytes(s, n, tail=None, fill=0xA5):
    t = n if tail is None else min(n, tail)
    return s.event("drbgbytes", ("bytes", n, t, fill), dict(n=n, tail=t))
def expinit(s, c, seed, div, mx):
    return s.event("expinit", ("xinit", c, hx(seed), hx(div), mx), dict(c=c, seed=list(seed), div=list(div), max=be(mx, 8)))
def expand(s, c, n, tail=None, fill=0xA5):
    t = n if tail is None else min(n, tail)
    return s.event("expand", ("expand", c, n, t, fill), dict(c=c, n=n, tail=t))

@prop("C24", assumptions=("streams are looked at up to 2^29 bytes of an expander; of a request over 2 GiB the first and the last bytes",))
def c24(c):
    c.overrides()
    copies = ["rng-util", "rng-refnist", "rng-optnist"]
    build_for(c, ["micro"], copies)
    build_for(c, ["micro"], copies, "asan")
    build_for(c, ["micro"], copies, "plain")
    c.model("DrbgMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\nCONSTANTS B = 4 Sizes = {0, 1, 3, 4, 5, 8, 9} MaxOps = %d Max = 14\n" % (6 if c.thorough else 5))
    c.model("AesMC", "SPECIFICATION Spec\nINVARIANT Fips197\nCHECK_DEADLOCK FALSE\n", overrides="none", env={"TRACE": ""})
    beh = c.behaviours("DrbgMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv Emit\nCONSTANTS B = 4 Sizes = {0, 1, 3, 4, 5, 8, 9} MaxOps = 4 Max = 14\n", "OPS")
    SIZES = [0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 100, 255, 256, 257]
    def start(it, s, mode=0):
        if mode == 0: drbginit(s, it.bytes(48))
        elif mode == 1: drbginit(s, it.bytes(48), it.bytes(48))
        else:       # V about to carry
            n = it.rnd.randrange(1, 17)
            v = it.bytes(16 - n) + b"\xff" * (n - 1) + bytes([it.rnd.choice((0xff, 0xfe, 0xfd, 0xf0))])
            drbginit(s, bytes(a ^ b for a, b in zip(FIRST, it.bytes(32) + v)))
    def sized(it, b, san):
        s = c.session("micro", [b], "requests of all sizes", san=san)
        for e, p in ((bytes(range(48)), b""), (bytes(48), bytes(48)), (b"\xff" * 48, bytes(range(48)))):
            drbginit(s, e, p)
            for n in range(0, 70): drbgbytes(s, n, fill=n)
        # the request sizes of the known-answer files
        drbginit(s, bytes(range(48)))
        for i in range(100 if c.thorough else 24):
            drbgbytes(s, 48); drbgbytes(s, 33 * (i + 1))
        s.done()
        s = c.session("micro", [b], "expander, all sizes", san=san)
        for mx in (1 << 20, 0xffffffff):
            expinit(s, 0, it.bytes(32), it.bytes(8), mx)
            for n in range(0, 70): expand(s, 0, n, fill=n)
        s.done()
        s = c.session("micro", [b], "expander, limit", san=san)
        for mx in list(range(0, 40)) + [47, 48, 49, 255, 256, 257, 65535, 65536]:
            expinit(s, 1, it.bytes(32), it.bytes(8), mx)
            expand(s, 1, mx + 1, 1); expand(s, 1, max(0, mx - 3), 40); expand(s, 1, 4); expand(s, 1, 2); expand(s, 1, 1)
            expand(s, 1, 1); expand(s, 1, 0); expand(s, 1, 2)
        for mx in (1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 64) - 1, 16777216, 16777215, 65536 * 255 + 1):
            expinit(s, 1, it.bytes(32), it.bytes(8), mx)
            expand(s, 1, 33)
            s.event("expnull", ("xnull", 1, 1), dict(c=1))
            expand(s, 1, 20)
        s.done()
    def carries(it, b):
        s = c.session("micro", [b], "carries")
        for k in range(1, 17):
            for last in (0xff, 0xfe, 0xfc):
                v = it.bytes(16 - k) + b"\xff" * (k - 1) + bytes([last])
                drbginit(s, bytes(a ^ b for a, b in zip(FIRST, it.bytes(32) + v)))
                drbgbytes(s, it.rnd.choice((16, 32, 33, 0, 1))); drbgbytes(s, 64); drbgbytes(s, 5)
        s.done()
        s = c.session("micro", [b], "long requests")
        for n in (4096, 4112, 65536, 1 << 20, (1 << 20) + 7):
            start(it, s, 0)
            drbgbytes(s, n, 100); drbgbytes(s, 40)
        expinit(s, 0, it.bytes(32), it.bytes(8), (1 << 32) - 1)
        for n in (4090, 20, 60, 65000, 500, 1 << 20, 1 << 20, 3):
            expand(s, 0, n, 4200)
        # blocks 2^24 and on
        at = 4090 + 20 + 60 + 65000 + 500 + (2 << 20) + 3
        if b == "rng-util" or c.thorough:
            for goal in ([1 << 28] if not c.thorough else [1 << 28, 1 << 29]):
                expand(s, 0, goal - 24 - at, 64); expand(s, 0, 9, 9); expand(s, 0, 100); expand(s, 0, 16)
                at = goal - 24 + 125
        s.done()
    def far(it, b):
        """requests whose offset does not fit 31 bits, as an unoptimised build makes them"""
        s = c.session("micro", [b], "requests over 2 GiB", san="plain")
        start(it, s, 2)
        drbgbytes(s, 33)
        for nb, nr in [(1 << 27, 5)] + ([(1 << 28, 3)] if c.thorough else []):
            s.event("drbgfar", ("far", nb + 2, nr, 64, 100), dict(nb=nb + 2, nr=nr, headn=64, tail=100))
            drbgbytes(s, 40)
        s.done()
    def model(it, b, k):
        """operation sequences of the model, blocks of 16 bytes instead of 4"""
        s = c.session("micro", [b], "operation sequences")
        mine = it.rnd.sample(beh, min(len(beh), 3000 if c.thorough else 250))
        for ops in mine:
            if len(s.events) > 500: s.done(); s = c.session("micro", [b], "operation sequences")
            start(it, s, it.rnd.randrange(3)); expinit(s, 2, it.bytes(32), it.bytes(8), 56)
            for o, n in ops:
                (drbgbytes if o == "r" else lambda s, n: expand(s, 2, n))(s, {0: 0, 1: 1, 3: 15, 4: 16, 5: 17, 8: 32, 9: 33}[n])
        s.done()
    def mixed(it, b, k, san):
        """several expanders and the generator, in any order"""
        for _ in range(20 if c.thorough else 3):
            s = c.session("micro", [b], "mixed", san=san)
            start(it, s, it.rnd.randrange(3))
            for i in range(4): expinit(s, i, it.bytes(32), it.bytes(8), it.rnd.choice((1000, 300, 70000, 1 << 24)))
            for _ in range(60):
                w = it.rnd.randrange(10)
                n = it.rnd.choice((it.rnd.choice(SIZES), it.rnd.randrange(300)))
                if w < 4: drbgbytes(s, n, fill=it.rnd.randrange(256))
                elif w < 8: expand(s, it.rnd.randrange(4), n, fill=it.rnd.randrange(256))
                elif w == 8: start(it, s, it.rnd.randrange(3))
                else: expinit(s, it.rnd.randrange(4), it.bytes(32), it.bytes(8), it.rnd.choice((100, 1000, 1 << 16)))
            s.done()
    c.remember = "RememberC24"
    run(c, far, [(b,) for b in copies])
    run(c, sized, [(b, san) for b in copies for san in ("", "asan")])
    run(c, carries, [(b,) for b in copies])
    run(c, model, [(b, 0) for b in copies])
    run(c, mixed, [(b, k, "asan" if k % 2 else "") for b in copies for k in range(4)])

KATS = [("util", "ref"), ("util", "avx2"), ("util", "neon"), ("refnist", "ref"), ("optnist", "avx2"), ("optnist", "neon")]
@prop("C23")
def c23(c):
    c.remember = "RememberC23"
    sets = MICRO + ["e12", "e33"]
    real = [("optnist", "avx2", "c1s"), ("util", "avx2", "d3")]
    if c.thorough:
        real += [("util", "ref", "c1i"), ("refnist", "ref", "d1"), ("optnist", "avx2", "d3"), ("util", "avx2", "d5"), ("optnist", "avx2", "c1b"), ("optnist", "avx2", "c1i"), ("util", "avx2", "c3s"), ("util", "avx2", "c5s")]
    c.prebuild([(f"kat-{k}-{b}", p) for p in sets for k, b in KATS] + [(f"kat-{k}-{b}", p) for k, b, p in real]
               + [(b, p) for p in sets for b in ("ref",)] + [(b, p) for _, b, p in real])
    def katrun(it, copy, b, p, step, twice):
        """"step": every how many entries the key and the signed message are computed"""
        g = [f"kat-{copy}-{b}#1"] + ([f"kat-{copy}-{b}#2"] if twice else [])
        ob = b if p in REAL or p in BIG else "ref"
        s = c.session(p, g, f"generator {copy} {b}")
        r = s.event("katrun", ("katrun",))
        n = r["nrsp"] if r else 0
        for i in range(n):
            if i and i % 10 == 0:       # sessions are judged side by side
                first = s
                s = c.session(p, g, f"generator {copy} {b} from {i}")
                s.events = first.events[:1]; s.calls = first.calls[:1]
                s.before = first.before
                first.done()
            full = i % step == step - 1
            e = s.event("kat", ("kat", i), dict(i=i, full=int(full)))
            if s.dead: break
            s.openraw(bytes(e["pk"]), bytes(e["sm"]), backends=[ob])
        s.done()
    run(c, katrun, [(k, b, p, 1 if p in MICRO else 10, True) for p in sets for k, b in KATS])
    run(c, katrun, [(k, b, p, 10 if p in BIG else 50, p not in C1 or c.thorough) for k, b, p in real])

# --- whole scheme ------------------------------------------------------------
def scheme_runs(c, pid):
    sets = SMALL + BIG
    build_for(c, sets)
    c.prebuild([(b, p) for p in C1 for b in ("ref", "avx2")] + [("avx2", p) for p in C3 + C5])
    if c.thorough:
        c.prebuild([(b, p) for p in C3 + C5 for b in ("ref", "neon")])
    def toy(it, p, first):
        for r in range(4 if c.thorough else 1):
            s = c.session(p, rot(first + r), f"run {p}")
            n = 30 if p in MICRO + EDGE else 5 if p in ROUND else 3
            history(it, s, Scheme(p), 2 if p in MICRO + EDGE else 1, n, opens=False, i0=first * 9 + 40 * r).done()
    def real(it, p, bs, n):
        s = c.session(p, bs, f"run {p}")
        history(it, s, Scheme(p), 1, n, opens=False, i0=it.rnd.randrange(20)).done()
    def longer(it, p, first):
        s = c.session(p, rot(first), f"long messages {p}")
        s.rng(it.bytes(48)); s.keypair()
        long_messages(it, s, Scheme(p), (65536 + 40,) + ((131072 + 3, 1 << 20) if c.thorough else ()), changes=False)
        s.done()
    def kin(it, p, first):
        s = c.session(p, rot(first), f"related keys {p}")
        related(it, s, Scheme(p), 24 if p in MICRO else 10, opens=False).done()
    run(c, kin, [(p, i % 3) for i, p in enumerate(MICRO + EDGE)])
    if pid == "C26": run(c, longer, [(p, i) for i, p in enumerate(MICRO)])
    if c.thorough:
        run(c, real, [(p, ("ref", "avx2", "neon"), 1) for p in C5 + C3] + [(p, ("ref", "avx2"), 6) for p in C1])
    else:
        c.prebuild([("ref", p) for p in ("c5b", "c3s")])
        run(c, real, ([("c5b", ("ref", "avx2"), 1), ("c3s", ("ref", "avx2"), 1)] if pid == "C26" else [("c5s", ("avx2",), 1), ("c3b", ("avx2",), 1)])
            + [(p, ("ref", "avx2"), 1) for p in C1])
    run(c, toy, [(p, i % 3) for i, p in enumerate(BIG + SMALL)])

@prop("C25")
def c25(c):
    scheme_runs(c, "C25")

@prop("C26")
def c26(c):
    scheme_runs(c, "C26")
