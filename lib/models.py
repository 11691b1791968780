"""Models of parts of the design, checked by TLC on their own: name -> module,
and for the two tiers the constants, the overrides and the number of distinct
states there must be (None: at least 2)."""
from math import comb
import build

BASE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\n"

def P(N=4, K=2, S=3, T=5, W=2, SL=16, MAXB=64, CAT=1):
    return f"CONSTANTS N = {N} K = {K} S = {S} T = {T} W = {W} SL = {SL} MAXB = {MAXB} CAT = {CAT}\n"

def streams(S, T, W):
    return sum(comb(T, k) * (S - 1) ** k for k in range(W + 1))

def chal(S, T, W):
    return ("ChallengeMC", BASE + "PROPERTY Kept\n" + P(S=S, T=T, W=W), "none", streams(S, T, W))

def tree(T):
    return ("SeedTreeMC", BASE + P(T=T), "keccak", 2 ** T)

def frame(ps, slack):
    N, K, S, T, W, SL, MAXB = build.REALP[ps]
    return ("FrameMC", BASE + P(N, K, S, T, W, SL, MAXB, build.REAL[ps][0]) + f"CONSTANT Slack = {slack}", "none", None)

def scheme(seeds, lens, S=3, T=5, W=2, N=24, K=12, cat=1, SL=16):
    return ("SchemeMC", BASE + P(N, K, S, T, W, SL, 40 * SL, cat) + f"CONSTANTS Seeds = {{{', '.join(map(str, range(seeds)))}}} Lens = {lens}", "all", None)

MODELS = {
    "seedtree":  ([tree(5), tree(8)], [tree(t) for t in range(2, 13)]),
    "challenge": ([chal(3, 6, 3), chal(2, 5, 4)], [chal(3, 6, 3), chal(2, 5, 4), chal(4, 5, 5), chal(8, 5, 3), chal(2, 10, 6), chal(3, 7, 7)]),
    "rref":      ([("RrefMC", BASE + P() + "CONSTANT Elems = {0, 1, 126}", "none", 3 ** 8)],
                  [("RrefMC", BASE + P() + "CONSTANT Elems = {0, 1, 5, 126}", "none", 4 ** 8), ("RrefMC", BASE + P(N=5) + "CONSTANT Elems = {0, 1, 2}", "none", 3 ** 10)]),
    "canon":     ([("CanonMC", BASE + P() + "CONSTANTS Elems = {0, 1, 5} Cols = 3", "none", 3 ** 6)],
                  [("CanonMC", BASE + P() + "CONSTANTS Elems = {0, 1, 5, 126} Cols = 3", "none", 4 ** 6), ("CanonMC", BASE + P(K=3) + "CONSTANTS Elems = {0, 1, 9} Cols = 2", "none", 3 ** 6)]),
    "mono":      ([("MonoMC", BASE + P() + "CONSTANTS Coefs = {0, 1, 9} Gens = {1, 5}", "none", None)],
                  [("MonoMC", BASE + P() + "CONSTANTS Coefs = {0, 1, 9} Gens = {0, 1, 5}", "none", None)]),
    "field":     ([("FieldMC", BASE + P(), "none", None)],) * 2,
    "sampler":   ([("SamplerMC", BASE + P() + "CONSTANTS Vals = {0, 126, 127} Words = 2", "none", 3 ** 6)],
                  [("SamplerMC", BASE + P() + "CONSTANTS Vals = {0, 1, 125, 126, 127} Words = 2", "none", 5 ** 6)]),
    "frame":     ([frame("c1s", 300), frame("c5b", 40)], [frame(p, 2000) for p in build.REAL]),
    "isolation": ([("IsolationMC", BASE + "CONSTANTS Procs = {1, 2, 3} Rounds = 2 Shared = FALSE", "none", 7 ** 3)],
                  [("IsolationMC", BASE + "CONSTANTS Procs = {1, 2, 3, 4} Rounds = 4 Shared = FALSE", "none", 11 ** 4)]),
    "scheme":    ([scheme(8, "{0, 9}")],
                  [scheme(40, "{0, 1, 9, 33}"), scheme(20, "{0, 5}", S=2, T=8, W=4), scheme(20, "{3}", S=8, T=4, W=4),
                   scheme(20, "{3}", T=7, W=1, cat=3, SL=24), scheme(20, "{3}", T=6, W=3, cat=5, SL=32)]),
}

def add(c, *names):
    for n in names:
        for module, cfg, ov, want in MODELS[n][1 if c.thorough else 0]:
            c.model(module, cfg, overrides=ov, distinct=want)
        if n == "isolation":
            c.must_fail("IsolationMC", BASE + "CONSTANTS Procs = {1, 2} Rounds = 2 Shared = TRUE", overrides="none")
