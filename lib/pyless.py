"""Helpers which build inputs (forged signatures, rare digests, matrices with
chosen shapes).  They only choose what to try: verdicts come from the
specification."""
import hashlib, random
from build import spec_params

Q = 127
INV = [0] + [pow(a, Q - 2, Q) for a in range(1, Q)]

def bitlen(n):
    return max(1, n.bit_length())

class Scheme:
    def __init__(self, pset):
        self.pset = pset
        self.__dict__.update(spec_params(pset))
        self.HL, self.PL = 2 * self.SL, 2 * self.SL
        self.posbits = {1: 8, 3: 9, 5: 10}[self.CAT]
        self.actionbytes = (7 * self.K + 7) // 8 + (self.posbits * self.K + 7) // 8
        self.fb = (self.N + 7) // 8
        self.rrefbytes = (7 * (self.N - self.K) * self.K + 7) // 8 + self.fb
        self.leaves = 2 ** bitlen(self.T)
        self.nodes = 2 * self.leaves - 1
        self.maxseeds = self.MAXB // self.SL
    def sigbytes(self, n):
        return 2 * self.HL + self.actionbytes * self.W + n * self.SL + 1
    # streams
    def xof(self, seed, n):
        return (hashlib.shake_128 if self.CAT == 1 else hashlib.shake_256)(bytes(seed)).digest(n)
    def hash(self, m):
        return {16: hashlib.sha3_256, 24: hashlib.sha3_384, 32: hashlib.sha3_512}[self.SL](m).digest()
    def challenge(self, digest):
        """(x, words read)"""
        vb, pb = bitlen(self.S - 1), bitlen(self.T - 1)
        n = 16 * self.W + 64
        while True:
            s = self.xof(digest, n)
            x, c = [0] * self.T, 0
            for i in range(n // 2):
                if c == self.W:
                    return x, i
                w = s[2*i] | s[2*i+1] << 8
                v, p = w & ((1 << vb) - 1), (w >> vb) & ((1 << pb) - 1)
                if v < self.S and p < self.T and not x[p] and v:
                    x[p] = v
                    c += 1
            n *= 4
    # fields
    @staticmethod
    def unpack(b, off, w, n):
        v = int.from_bytes(b, "little") >> off
        return [(v >> (i * w)) & ((1 << w) - 1) for i in range(n)]
    @staticmethod
    def pack(groups, nbytes):
        v, o = 0, 0
        for vals, w in groups:
            for x in vals:
                v |= x << o
                o += w
        return (v & ((1 << 8 * nbytes) - 1)).to_bytes(nbytes, "little")
    def packact(self, p, c):
        return self.pack([(p, self.posbits), (c, 7)], self.actionbytes)
    def unpackact(self, b):
        return self.unpack(b, 0, self.posbits, self.K), self.unpack(b, self.posbits * self.K, 7, self.K)
    def packrref(self, m, fl):
        np_ = [j for j in range(self.N) if not fl[j]]
        return self.pack([(fl, 1)], self.fb) + self.pack([([r[j] for r in m for j in np_], 7)], self.rrefbytes - self.fb)
    def unpackrref(self, b):
        fl = self.unpack(b[:self.fb], 0, 1, self.N)
        vals = self.unpack(b[self.fb:], 0, 7, (self.N - self.K) * self.K)
        m, a, z = [[0] * self.N for _ in range(self.K)], 0, 0
        for j in range(self.N):
            if fl[j]:
                if a < self.K:
                    m[a][j] = 1
                a += 1
            elif z < self.N - self.K:
                for i in range(self.K):
                    m[i][j] = vals[i * (self.N - self.K) + z]
                z += 1
        return m, fl
    # samplers
    def elems(self, stream, off, span, mn, n):
        out, w = [], off // 8
        while True:
            v = int.from_bytes(stream[8*w:8*w+8], "little")
            w += 1
            for j in range(9):
                e = (v >> (7 * j)) & 127
                if e <= span:
                    out.append(e + mn)
                    if len(out) == n:
                        return out, 8 * w
    def monomial(self, seed):
        s = self.xof(seed, 8 * (self.N // 9 + self.N // 60 + 20) + 4 * self.N)
        c, o = self.elems(s, 0, Q - 2, 1, self.N)
        p = list(range(self.N))
        for i in range(self.N - 1):
            j = i + int.from_bytes(s[o+4*i:o+4*i+4], "little") % (self.N - i)
            p[i], p[j] = p[j], p[i]
        return c, p
    def ephemeral(self, seed, salt, r):
        return self.monomial(bytes(seed) + bytes(salt) + bytes([r & 255, r >> 8]))
    def public(self, gseed):
        s = self.xof(gseed, self.K * 8 * ((self.N - self.K) // 9 + self.N // 60 + 20))
        off, m = 0, []
        for i in range(self.K):
            r, off = self.elems(s, off, Q - 1, 0, self.N - self.K)
            m.append([int(i == j) for j in range(self.K)] + r)
        return m
    # codes
    def rref(self, m):
        m = [list(r) for r in m]
        piv, r = [], 0
        for c in range(len(m[0])):
            j = next((i for i in range(r, len(m)) if m[i][c]), None)
            if j is None:
                continue
            m[r], m[j] = m[j], m[r]
            f = INV[m[r][c]]
            m[r] = [x * f % Q for x in m[r]]
            for i in range(len(m)):
                if i != r and m[i][c]:
                    f = m[i][c]
                    m[i] = [(x - f * y) % Q for x, y in zip(m[i], m[r])]
            piv.append(c)
            r += 1
            if r == len(m):
                break
        return m, piv
    def canon(self, m):
        m, piv = self.rref(m)
        if len(piv) < len(m):
            return None
        cols = []
        for j in range(self.N):
            if j not in piv:
                col = [r[j] for r in m]
                f = INV[next((x for x in col if x), 0)]
                cols.append([x * f % Q for x in col])
        cols.sort()
        return bytes(cols[j][i] for i in range(self.K) for j in range(self.N - self.K))
    def mul(self, g, c, p):
        o = [[0] * self.N for _ in g]
        for i in range(len(g)):
            for j in range(self.N):
                o[i][p[j]] = g[i][j] * c[j] % Q
        return o
    def pubkey(self, sk):
        """the public key of a private key"""
        ps, g0 = self.xof(sk[:self.PL], (self.S - 1) * self.PL), self.public(sk[self.PL:])
        out = bytes(sk[self.PL:])
        for i in range(self.S - 1):
            c, p = self.monomial(ps[i*self.PL:(i+1)*self.PL])
            ic, ip = [0] * self.N, [0] * self.N
            for j in range(self.N):
                ip[p[j]] = j; ic[p[j]] = INV[c[j]]
            m, piv = self.rref(self.mul(g0, ic, ip))
            out += self.packrref(m, [1 if j in piv else 0 for j in range(self.N)])
        return out
    def act(self, g, p, c):
        rest = [j for j in range(self.N) if j not in set(p)]
        return [[r[p[j]] * c[j] % Q if j < self.K else r[rest[j - self.K]] for j in range(self.N)] for r in g]
    # tree
    def tree(self, root, salt):
        t = [bytes(root)]
        for i in range(self.leaves - 1):
            ch = self.xof(bytes(salt) + t[i], 2 * self.SL)
            t += [ch[:self.SL], ch[self.SL:]]
        return t
    def closed(self, hid):
        f = [0] * self.nodes
        for r in range(self.T):
            f[self.leaves - 1 + r] = 1 if hid[r] else 0
        for i in range(self.leaves - 2, -1, -1):
            f[i] = f[2*i+1] | f[2*i+2]
        return f
    def published(self, hid):
        f = self.closed(hid)
        return [i for i in range(1, self.nodes) if not f[i] and f[(i - 1) // 2]]
    def keyelem(self, pk, i):
        o = self.SL + (i - 1) * self.rrefbytes
        return pk[o:o + self.rrefbytes]
    def split(self, sm):
        n = sm[-1]
        ml = len(sm) - self.sigbytes(n)
        o = ml
        salt = sm[o:o+self.HL]; o += self.HL
        acts = [sm[o+i*self.actionbytes:o+(i+1)*self.actionbytes] for i in range(self.W)]; o += self.W * self.actionbytes
        dig = sm[o:o+self.HL]; o += self.HL
        seeds = [sm[o+i*self.SL:o+(i+1)*self.SL] for i in range(n)]
        return dict(m=sm[:ml], salt=salt, acts=acts, digest=dig, seeds=seeds)
    def join(self, d):
        return d["m"] + d["salt"] + b"".join(d["acts"]) + d["digest"] + b"".join(d["seeds"]) + bytes([len(d["seeds"])])
    def randact(self, rnd):
        return rnd.sample(range(self.N), self.K), [rnd.randrange(1, Q) for _ in range(self.K)]
    def forge(self, pk, m, spoil, rnd, tries=4000, x=None, elem=None):
        """a signature without the private key: guesses the challenge, answers
        the challenged rounds with arbitrary maps (spoil(i, p, c) may alter
        the i-th), and tries salts until the digest asks for the guess.  Only
        feasible when there are few challenges."""
        g0 = self.public(pk[:self.SL])
        gs = [self.unpackrref(elem[i] if elem and i in elem else self.keyelem(pk, i))[0] for i in range(1, self.S)]
        for _ in range(60):
            if x is None:
                xs = [0] * self.T
                for r in rnd.sample(range(self.T), self.W):
                    xs[r] = rnd.randrange(1, self.S)
            else:
                xs = x
            hit = [r for r in range(self.T) if xs[r]]
            acts, forms = [], {}
            for i, r in enumerate(hit):
                p, c = spoil(i, *self.randact(rnd))
                if max(p) >= self.N:        # no telling what would be read there
                    return None
                acts.append(self.packact(p, c))
                forms[r] = self.canon(self.act(gs[xs[r] - 1], p, c))
            if any(f is None for f in forms.values()):
                continue
            pub = self.published(xs)
            # the published seeds of unchallenged rounds may be anything
            for _ in range(tries):
                salt = rnd.randbytes(self.HL)
                seeds = [rnd.randbytes(self.SL) for _ in pub]
                t = dict(zip(pub, seeds))
                for i in range(self.leaves - 1):
                    if i in t:
                        ch = self.xof(salt + t[i], 2 * self.SL)
                        t[2*i+1], t[2*i+2] = ch[:self.SL], ch[self.SL:]
                ok = True
                for r in range(self.T):
                    if not xs[r]:
                        f = self.canon(self.mul(g0, *self.ephemeral(t[self.leaves - 1 + r], salt, r)))
                        if f is None:
                            ok = False
                            break
                        forms[r] = f
                if not ok:
                    continue
                d = self.hash(b"".join(forms[r] for r in range(self.T)) + m + salt)
                if self.challenge(d)[0] == xs:
                    return self.join(dict(m=m, salt=salt, acts=acts, digest=d, seeds=seeds))
        return None

def flat(m):
    return bytes(x for r in m for x in r)
