/* Conformance driver: executes one command per input line against the LESS
 * sources it is compiled with and answers with one JSON object per line.
 * It computes nothing itself: it converts arguments, calls the code under
 * test and reports what came back (results, canaries, changes to inputs and
 * to process-wide data). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
#include "api.h"
#include "LESS.h"
#include "codes.h"
#include "monomial_mat.h"
#include "seedtree.h"
#include "utils.h"
#include "rng.h"
#include "sha3.h"
#include "fq_arith.h"
#include "fips202.h"

#if defined(DRV_PADDED)
#define PIV_LEN N_pad
#else
#define PIV_LEN N
#endif

/* ------------------------------------------------------------ arguments */
static char *line; static size_t linecap;
static char *cur;
static char *tok(void) {
    while (*cur == ' ') cur++;
    char *s = cur;
    while (*cur && *cur != ' ' && *cur != '\n') cur++;
    if (*cur) *cur++ = 0;
    return s;
}
static long long num(void) { return strtoll(tok(), NULL, 10); }
typedef struct { unsigned char *p; size_t n; } blob;
static int hv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static blob *live; static size_t nlive, caplive;
static void *keep(void *p) {
    if (nlive == caplive) { caplive = caplive ? 2 * caplive : 64; live = realloc(live, caplive * sizeof *live); }
    live[nlive++].p = p;
    return p;
}
static blob hexs(const char *s) {
    blob b = {0, 0};
    size_t l = strcmp(s, "-") ? strlen(s) : 0;
    b.n = l / 2;
    b.p = keep(malloc(b.n ? b.n : 1));
    for (size_t i = 0; i < b.n; i++) b.p[i] = hv(s[2*i]) << 4 | hv(s[2*i+1]);
    return b;
}
static blob hex(void) { return hexs(tok()); }
static blob fresh(size_t n, int fill) {
    blob b; b.n = n;
    /* 32-byte aligned for vector types, exact size for the redzones */
    void *q = NULL;
    if (posix_memalign(&q, 32, n ? n : 1)) abort();
    b.p = keep(q);
    memset(b.p, fill, n);
    return b;
}
static blob copyof(blob a) { blob b = fresh(a.n, 0); memcpy(b.p, a.p, a.n); return b; }
static int same(blob a, blob b) { return a.n == b.n && !memcmp(a.p, b.p, a.n); }

/* --------------------------------------------------------------- output */
static char *out; static size_t on, ocap; static int first;
static void put(const char *s, size_t n) {
    if (on + n + 1 > ocap) { while (on + n + 1 > ocap) ocap = ocap ? 2 * ocap : 1 << 16; out = realloc(out, ocap); }
    memcpy(out + on, s, n); on += n;
}
static void puts_(const char *s) { put(s, strlen(s)); }
static void key(const char *k) { puts_(first ? "{\"" : ",\""); first = 0; puts_(k); puts_("\":"); }
static void jnum(const char *k, long long v) { char b[32]; key(k); snprintf(b, sizeof b, "%lld", v); puts_(b); }
static char dec[1 << 16][6]; static unsigned char decl_[1 << 16];
static void val(unsigned v) {
    if (v < (1 << 16)) { put(dec[v], decl_[v]); }
    else { char b[16]; snprintf(b, sizeof b, "%u", v); puts_(b); }
}
static void jbytes(const char *k, const unsigned char *p, size_t n) {
    key(k); puts_("[");
    for (size_t i = 0; i < n; i++) { if (i) puts_(","); val(p[i]); }
    puts_("]");
}
static void arr8(const uint8_t *p, size_t n) {
    puts_("[");
    for (size_t i = 0; i < n; i++) { if (i) puts_(","); val(p[i]); }
    puts_("]");
}
static void jpos(const char *k, const POSITION_T *p, size_t n) {
    key(k); puts_("[");
    for (size_t i = 0; i < n; i++) { if (i) puts_(","); val(p[i]); }
    puts_("]");
}
static void jmat(const char *k, const void *base, size_t stride, size_t r, size_t c) {
    key(k); puts_("[");
    for (size_t i = 0; i < r; i++) { if (i) puts_(","); arr8((const uint8_t *)base + i * stride, c); }
    puts_("]");
}
static void jgen(const char *k, const generator_mat_t *g) { jmat(k, g->values, sizeof g->values[0], K, N); }
static void jnis(const char *k, const normalized_IS_t *v) { jmat(k, v->values, sizeof v->values[0], K, N-K); }

/* --------------------------------------------------- process-wide state */
extern unsigned char __start_lessdata[] __attribute__((weak)), __stop_lessdata[] __attribute__((weak));
extern unsigned char __start_lessbss[] __attribute__((weak)), __stop_lessbss[] __attribute__((weak));
static unsigned char *gsnap[2]; static size_t gn[2];
static unsigned char *gstart[2];
static SHAKE_STATE_STRUCT rsnap;
static size_t gsize(int i) {
    unsigned char *a = i ? __start_lessbss : __start_lessdata, *b = i ? __stop_lessbss : __stop_lessdata;
    gstart[i] = a;
    return a && b ? (size_t)(b - a) : 0;
}
static void snap(void) {
    for (int k = 0; k < 2; k++) {
        gn[k] = gsize(k);
        if (gn[k]) { gsnap[k] = realloc(gsnap[k], gn[k]); memcpy(gsnap[k], gstart[k], gn[k]); }
    }
    rsnap = platform_csprng_state;
}
/* number of bytes of library data changed, the generator state apart */
static long gchanged(void) {
    long c = 0;
    unsigned char *r0 = (unsigned char *)&platform_csprng_state, *r1 = r0 + sizeof platform_csprng_state;
    for (int k = 0; k < 2; k++)
        for (size_t i = 0; i < gn[k]; i++) {
            unsigned char *p = gstart[k] + i;
            if (p >= r0 && p < r1) continue;
            c += *p != gsnap[k][i];
        }
    return c;
}
static int rchanged(void) { return memcmp(&rsnap, &platform_csprng_state, sizeof rsnap) != 0; }

/* leave a pattern on the stack below the caller */
static int dirtyfill = 0xA5;
static __attribute__((noinline)) void dirty_(int fill) {
    volatile unsigned char *p = __builtin_alloca(900000);
    for (size_t i = 0; i < 900000; i++) p[i] = fill;
}
static __attribute__((noinline)) void dirty(void) {
#if !defined(__SANITIZE_ADDRESS__)
    dirty_(dirtyfill);
#endif
}

/* ------------------------------------------------------- argument types */
static generator_mat_t *gen_arg(void) {
    blob b = hex();
    generator_mat_t *g = (generator_mat_t *)fresh(sizeof *g, 0).p;
    if (b.n != (size_t)K * N) abort();
    for (int i = 0; i < K; i++) memcpy(g->values[i], b.p + (size_t)i * N, N);
    return g;
}
static void fill_pos(POSITION_T *d, blob p, size_t n) {
    if (p.n != 2 * n) abort();
    for (size_t i = 0; i < n; i++) d[i] = p.p[2*i] | p.p[2*i+1] << 8;
}
static monomial_t *mono_arg(void) {
    monomial_t *m = (monomial_t *)fresh(sizeof *m, 0).p;
    blob c = hex(), p = hex();
    if (c.n != N) abort();
    memcpy(m->coefficients, c.p, N);
    fill_pos(m->permutation, p, N);
    return m;
}
static monomial_action_IS_t *act_arg(void) {
    monomial_action_IS_t *m = (monomial_action_IS_t *)fresh(sizeof *m, 0).p;
    blob c = hex(), p = hex();
    if (c.n != K) abort();
    memcpy(m->coefficients, c.p, K);
    fill_pos(m->permutation, p, K);
    return m;
}
static void jmono(const monomial_t *m) { jbytes("c", m->coefficients, N); jpos("p", m->permutation, N); }
static void jact(const monomial_action_IS_t *m) { jbytes("ac", m->coefficients, K); jpos("ap", m->permutation, K); }
static monomial_t *mono_new(int fill) { return (monomial_t *)fresh(sizeof(monomial_t), fill).p; }
static monomial_action_IS_t *act_new(int fill) { return (monomial_action_IS_t *)fresh(sizeof(monomial_action_IS_t), fill).p; }
static generator_mat_t *gen_new(int fill) { return (generator_mat_t *)fresh(sizeof(generator_mat_t), fill).p; }
static normalized_IS_t *nis_new(int fill) { return (normalized_IS_t *)fresh(sizeof(normalized_IS_t), fill).p; }

#define CANARY 64
static size_t beyond(const unsigned char *p, size_t n, int fill) {
    size_t c = 0;
    for (size_t i = 0; i < n; i++) c += p[i] != (unsigned char)fill;
    return c;
}

/* ------------------------------------------------------------- commands */
static void c_params(void) {
    jnum("N", N); jnum("K", K); jnum("Q", Q); jnum("S", NUM_KEYPAIRS); jnum("T", T); jnum("W", W);
    jnum("SL", SEED_LENGTH_BYTES); jnum("MAXB", SEED_TREE_MAX_PUBLISHED_BYTES);
    jnum("pkbytes", CRYPTO_PUBLICKEYBYTES); jnum("skbytes", CRYPTO_SECRETKEYBYTES); jnum("sigmax", CRYPTO_BYTES);
    jnum("rref", RREF_MAT_PACKEDBYTES); jnum("action", MONO_ACTION_PACKEDBYTES); jnum("digest", HASH_DIGEST_LENGTH);
    jnum("globals", (long)(gsize(0) + gsize(1)));
    jnum("rngbytes", (long)sizeof platform_csprng_state);
}
static void c_rng(void) { blob s = hex(); initialize_csprng(&platform_csprng_state, s.p, s.n); jnum("ret", 0); }
static void c_probe(void) { blob o = fresh(num(), 0); randombytes(o.p, o.n); jbytes("out", o.p, o.n); }
static void c_nop(void) { jnum("ret", 0); }
static void c_dirty(void) { dirtyfill = num(); jnum("ret", 0); }

static void c_keypair(void) {
    int fill = num();
    blob pk = fresh(CRYPTO_PUBLICKEYBYTES + CANARY, fill), sk = fresh(CRYPTO_SECRETKEYBYTES + CANARY, fill);
    snap(); dirty();
    int r = crypto_sign_keypair(pk.p, sk.p);
    jnum("ret", r); jnum("glob", gchanged());
    jnum("over", beyond(pk.p + CRYPTO_PUBLICKEYBYTES, CANARY, fill) + beyond(sk.p + CRYPTO_SECRETKEYBYTES, CANARY, fill));
    jbytes("pk", pk.p, CRYPTO_PUBLICKEYBYTES); jbytes("sk", sk.p, CRYPTO_SECRETKEYBYTES);
}
static void c_sign(void) {
    int fill = num(); blob sk = hex(), m = hex(), sk0 = copyof(sk), m0 = copyof(m);
    size_t room = m.n + CRYPTO_BYTES;
#if defined(__SANITIZE_ADDRESS__)
    blob sm = fresh(room, fill);
#else
    blob sm = fresh(room + CANARY, fill);
#endif
    unsigned long long smlen = ~0ULL;
    snap(); dirty();
    int r = crypto_sign(sm.p, &smlen, m.p, m.n, sk.p);
    jnum("ret", r); jnum("glob", gchanged()); jnum("rng", rchanged());
    jnum("over", beyond(sm.p + room, sm.n - room, fill));
    jnum("insame", same(sk, sk0) && same(m, m0));
    jnum("smlen", smlen > 0x7fffffff ? -1 : (long long)smlen);
    jbytes("sm", sm.p, smlen <= room ? smlen : 0);
}
static void c_open(void) {
    int fill = num(); blob pk = hex(), sm = hex(), pk0 = copyof(pk), sm0 = copyof(sm);
    /* the message of an accepted signature never exceeds the signed message */
    size_t room = sm.n;
#if defined(__SANITIZE_ADDRESS__)
    blob m = fresh(room, fill);
#else
    blob m = fresh(room + CANARY, fill);
#endif
    unsigned long long mlen = 0xfeedULL << 32;
    snap(); dirty();
    int r = crypto_sign_open(m.p, &mlen, sm.p, sm.n, pk.p);
    jnum("ret", r); jnum("glob", gchanged()); jnum("rng", rchanged());
    jnum("over", beyond(m.p + room, m.n - room, fill));
    /* space a message can take: what is left next to the shortest signature */
    size_t cap = sm.n >= LESS_CRYPTO_BYTES(0) ? sm.n - LESS_CRYPTO_BYTES(0) : 0;
    jnum("past", beyond(m.p + cap, room - cap, fill));
    jnum("insame", same(pk, pk0) && same(sm, sm0));
    jnum("mlen", mlen > 0x7fffffff ? -1 : (long long)mlen);
    if (r == 0 && mlen <= room) jbytes("m", m.p, mlen); else jbytes("m", m.p, 0);
}
/* several openings at once: "openmt threads reps n (pk sm)*n" */
struct mtjob { blob pk, sm; };
static struct mtjob *mtj; static int mtn, mtreps, mtthreads; static long mtret[64][64]; static int mtmsg[64][64];
static pthread_barrier_t mtbar;
static void *mtrun(void *arg) {
    int id = (int)(intptr_t)arg;
    pthread_barrier_wait(&mtbar);
    for (int k = 0; k < mtreps; k++) for (int q = 0; q < mtn; q++) {
        int i = (q + id) % mtn;
        unsigned char *m = malloc(mtj[i].sm.n + 1);
        memset(m, 0, mtj[i].sm.n + 1);
        unsigned long long l = 0;
        int r = crypto_sign_open(m, &l, mtj[i].sm.p, mtj[i].sm.n, mtj[i].pk.p);
        int ok = r != 0 || (l <= mtj[i].sm.n && !memcmp(m, mtj[i].sm.p, l));
        if (k == 0) mtret[id][i] = r; else if (mtret[id][i] != r) mtret[id][i] = 99;
        if (k == 0) mtmsg[id][i] = ok; else mtmsg[id][i] &= ok;
        free(m);
    }
    return NULL;
}
static void c_openmt(void) {
    mtthreads = num(); mtreps = num(); mtn = num();
    mtj = keep(calloc(mtn, sizeof *mtj));
    for (int i = 0; i < mtn; i++) { mtj[i].pk = hex(); mtj[i].sm = hex(); }
    snap();
    pthread_t th[64];
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64u << 20);
    pthread_barrier_init(&mtbar, NULL, mtthreads);
    for (int t = 0; t < mtthreads; t++) pthread_create(&th[t], &at, mtrun, (void *)(intptr_t)t);
    for (int t = 0; t < mtthreads; t++) pthread_join(th[t], NULL);
    pthread_barrier_destroy(&mtbar);
    jnum("glob", gchanged()); jnum("rng", rchanged());
    key("rets"); puts_("[");
    for (int t = 0; t < mtthreads; t++) {
        puts_(t ? ",[" : "[");
        for (int i = 0; i < mtn; i++) { char b[24]; snprintf(b, sizeof b, "%s%ld", i ? "," : "", mtmsg[t][i] ? mtret[t][i] : 98); puts_(b); }
        puts_("]");
    }
    puts_("]");
}

/* a message longer than 32 bits can count: "huge sk pk plain hi lo pos...", a message
 * of hi * 2^32 + lo bytes, zero apart from a few marks; signed, opened (if
 * plain), and opened with a bit flipped at each position (counted from the end of the message) */
#include <sys/mman.h>
static unsigned char *vast(size_t n) {
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return NULL;
    return p;
}
static void jlong(const char *k, unsigned long long v) {
    unsigned char b[8];
    for (int i = 0; i < 8; i++) b[i] = v >> 8 * (7 - i);
    jbytes(k, b, 8);
}
static void c_huge(void) {
    blob sk = hex(), pk = hex(); int plain = num();
    unsigned long long n = (unsigned long long)num() << 32;
    n += num();
    size_t room = n + CRYPTO_BYTES + CANARY;
    unsigned char *m = vast(n + 1), *sm = vast(room), *o = vast(room);
    if (!m || !sm || !o) { jnum("nocmd", 1); return; }
    madvise(sm, room, MADV_HUGEPAGE); madvise(o, room, MADV_HUGEPAGE);
    m[0] = 1; m[n - 1] = 2; m[n / 2] = 3; m[n & 0xffffffff] = 4;
    unsigned long long smlen = ~0ULL, mlen = ~0ULL;
    int r = crypto_sign(sm, &smlen, m, n, sk.p);
    jnum("ret", r); jnum("extra", smlen >= n && smlen - n < 0x7fffffff ? (long long)(smlen - n) : -1);
    int ok = smlen >= n && smlen - n <= CRYPTO_BYTES;
    if (plain) {
        int q = ok ? crypto_sign_open(o, &mlen, sm, smlen, pk.p) : 99;
        jnum("oret", q); jlong("mlen", mlen);
        jnum("same", mlen == n && !memcmp(o, m, n) && !memcmp(sm, m, n));
    }
    key("rets"); puts_("[");
    int c = 0;
    for (char *t = tok(); *t && ok; t = tok()) {
        unsigned long long at = n - strtoull(t, NULL, 10);
        char b[24];
        sm[at] ^= 0x10;
        snprintf(b, sizeof b, "%s%d", c++ ? "," : "", crypto_sign_open(o, &mlen, sm, smlen, pk.p)); puts_(b);
        sm[at] ^= 0x10;
    }
    puts_("]");
    munmap(m, n + 1); munmap(sm, room); munmap(o, room);
}

#if !defined(NO_TREE)
static unsigned char *leaves_of(unsigned char *tree) { return tree + SEED_LENGTH_BYTES * (NUM_LEAVES_OF_SEED_TREE - 1); }
static void c_tree(void) {
    blob root = hex(), salt = hex();
    blob t = fresh(NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES, 0);
    snap(); dirty();
    generate_seed_tree_from_root(t.p, root.p, salt.p);
    jnum("glob", gchanged());
    jbytes("nodes", t.p, t.n);
}
/* root salt flags: grow, publish, rebuild */
static void c_treetrip(void) {
    int fill = num(), full = num();
    blob root = hex(), salt = hex(), hid = hex();
    if (hid.n != T) abort();
    blob t = fresh(NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES, 0);
    blob st = fresh(SEED_TREE_MAX_PUBLISHED_BYTES + 1 + CANARY, fill);
    blob t2 = fresh(NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES, 0);
    blob h0 = copyof(hid);
    snap(); dirty();
    generate_seed_tree_from_root(t.p, root.p, salt.p);
    uint32_t n = seed_tree_path(t.p, hid.p, st.p);
    jnum("n", n);
    jnum("over", beyond(st.p + SEED_TREE_MAX_PUBLISHED_BYTES + 1, CANARY, fill));
    size_t nb = (size_t)n * SEED_LENGTH_BYTES;
    if (nb <= SEED_TREE_MAX_PUBLISHED_BYTES) {
        jbytes("pub", st.p, nb);
        jnum("after", beyond(st.p + nb, st.n - nb, fill));
        /* exactly the published seeds, then garbage */
        blob sx = fresh(nb, 0); memcpy(sx.p, st.p, nb);
        dirty();
        uint32_t u = rebuild_seed_tree_leaves(t2.p, hid.p, sx.p, salt.p);
        jnum("used", u);
        jbytes("leaves", leaves_of(t2.p), T * SEED_LENGTH_BYTES);
        if (full) jbytes("rnodes", t2.p, t2.n);
    } else { jbytes("pub", st.p, 0); jnum("after", 0); jnum("used", 0); jbytes("leaves", t2.p, 0); if (full) jbytes("rnodes", t2.p, 0); }
    jnum("glob", gchanged()); jnum("insame", same(hid, h0));
    if (full) jbytes("nodes", t.p, t.n);
}
/* only which positions get published, on a tree whose nodes are numbered */
static void c_treepath(void) {
    blob hid = hex();
    if (hid.n != T) abort();
    blob t = fresh(NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES, 0);
    for (size_t i = 0; i < NUM_NODES_OF_SEED_TREE; i++) { t.p[i*SEED_LENGTH_BYTES] = i & 255; t.p[i*SEED_LENGTH_BYTES+1] = i >> 8; }
    blob st = fresh(NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES, 0xEE);
    snap(); dirty();
    uint32_t n = seed_tree_path(t.p, hid.p, st.p);
    jnum("n", n); jnum("glob", gchanged());
    key("ids"); puts_("[");
    for (uint32_t i = 0; i < n && i < NUM_NODES_OF_SEED_TREE; i++) { if (i) puts_(","); val(st.p[i*SEED_LENGTH_BYTES] | st.p[i*SEED_LENGTH_BYTES+1] << 8); }
    puts_("]");
}
static void c_rebuild(void) {
    blob salt = hex(), hid = hex(), seeds = hex();
    if (hid.n != T) abort();
    blob t2 = fresh(NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES, 0);
    snap(); dirty();
    uint32_t u = rebuild_seed_tree_leaves(t2.p, hid.p, seeds.p, salt.p);
    jnum("used", u);
    jbytes("rnodes", t2.p, t2.n);
}
#endif
#if !defined(NO_CHALLENGE)
static void c_challenge(void) {
    blob d = hex(), d0 = copyof(d);
    if (d.n != HASH_DIGEST_LENGTH) abort();
    blob x = fresh(T + CANARY, 0); memset(x.p + T, 0xA5, CANARY);
    snap(); dirty();
    expand_digest_to_fixed_weight(x.p, d.p);
    jbytes("x", x.p, T); jnum("over", beyond(x.p + T, CANARY, 0xA5));
    jnum("glob", gchanged()); jnum("rng", rchanged()); jnum("insame", same(d, d0));
}
#endif
#if !defined(NO_MONO)
static void c_ephem(void) {
    blob seed = hex(), salt = hex(); int r = num();
    monomial_t *m = mono_new(0xA5);
    snap(); dirty();
    monomial_mat_seed_expand_salt_rnd(m, seed.p, salt.p, r);
    jmono(m); jnum("glob", gchanged()); jnum("rng", rchanged());
}
static void c_priv(void) {
    blob seed = hex();
    monomial_t *m = mono_new(0xA5);
    snap(); dirty();
    monomial_mat_seed_expand_prikey(m, seed.p);
    jmono(m); jnum("glob", gchanged()); jnum("rng", rchanged());
}
static void c_monornd(void) { monomial_t *m = mono_new(0xA5); dirty(); monomial_mat_rnd(m); jmono(m); }
static void c_monomul(void) { monomial_t *a = mono_arg(), *b = mono_arg(), *r = mono_new(0xA5); dirty(); monomial_mat_mul(r, a, b); jmono(r); }
static void c_monoinv(void) { monomial_t *a = mono_arg(), *r = mono_new(0xA5); dirty(); monomial_mat_inv(r, a); jmono(r); }
static void c_monoid(void) { monomial_t *r = mono_new(0xA5); monomial_mat_id(r); jmono(r); }
static void c_compose(void) {
    monomial_t *a = mono_arg(); monomial_action_IS_t *b = act_arg(), *r = act_new(0xA5); dirty();
    monomial_compose_action(r, a, b); jact(r);
}
#endif
#if !defined(NO_ACTION)
static void c_packact(void) {
    int fill = num(); monomial_action_IS_t *a = act_arg();
    blob o = fresh(MONO_ACTION_PACKEDBYTES + CANARY, fill);
    dirty();
    compress_monom_action(o.p, a);
    jbytes("b", o.p, MONO_ACTION_PACKEDBYTES);
    jnum("over", beyond(o.p + MONO_ACTION_PACKEDBYTES, CANARY, fill));
    monomial_action_IS_t *r = act_new(0xA5);
    blob x = fresh(MONO_ACTION_PACKEDBYTES, 0); memcpy(x.p, o.p, x.n);
    expand_to_monom_action(r, x.p);
    jact(r);
}
static void c_unpackact(void) {
    blob b = hex(), b0 = copyof(b); monomial_action_IS_t *r = act_new(0xA5);
    if (b.n != MONO_ACTION_PACKEDBYTES) abort();
    dirty();
    expand_to_monom_action(r, b.p);
    jact(r); jnum("insame", same(b, b0));
}
static void c_valid(void) {
    monomial_action_IS_t *a = act_arg();
    dirty();
    jnum("v", !!is_monom_action_valid(a));
}
#endif
#if !defined(NO_CODES)
static void c_gmul(void) {
    generator_mat_t *g = gen_arg(), *r = gen_new(0); monomial_t *a = mono_arg();
    dirty();
    generator_monomial_mul(r, g, a);
    jgen("g", r);
}
static void c_rref(void) {
    generator_mat_t *g = gen_arg();
    blob f = fresh(PIV_LEN, 0);
    dirty();
    int ok = generator_RREF(g, f.p);
    jnum("ok", !!ok); jgen("g", g); jbytes("fl", f.p, N);
}
static void c_commit(void) {
    generator_mat_t *g = gen_arg(); monomial_t *a = mono_arg();
    normalized_IS_t *v = nis_new(0xA5); monomial_action_IS_t *q = act_new(0xA5);
    dirty();
    prepare_digest_input(v, q, g, a);
    jnis("v", v); jact(q);
}
static void c_applyact(void) {
    generator_mat_t *g = gen_arg(), *r = gen_new(0); monomial_action_IS_t *a = act_arg();
    dirty();
    apply_action_to_G(r, g, a);
    jgen("g", r);
}
static void c_lexmin(void) {    /* all columns of g, minimised one by one */
    generator_mat_t *g = gen_arg();
    normalized_IS_t *v = nis_new(0xA5);
    key("g"); puts_("[");
    for (int base = 0; base < N; base += N - K) {
        for (int j = base; j < N && j < base + N - K; j++) { dirty(); lex_minimize(v, j - base, g, j); }
        for (int j = base; j < N && j < base + N - K; j++) {
            uint8_t col[K];
            for (int i = 0; i < K; i++) col[i] = v->values[i][j - base];
            if (j) puts_(",");
            arr8(col, K);
        }
    }
    puts_("]");
}
static void c_lexsort(void) {
    blob b = hex(); normalized_IS_t *v = nis_new(0);
    if (b.n != (size_t)K * (N-K)) abort();
    for (int i = 0; i < K; i++) memcpy(v->values[i], b.p + (size_t)i * (N-K), N-K);
    dirty();
    lex_sort_cols(v);
    jnis("v", v);
}
#endif
#if !defined(NO_RREFPACK)
static void c_packrref(void) {
    int fill = num(); generator_mat_t *g = gen_arg(); blob f0 = hex(), f = fresh(PIV_LEN, 0);
    memcpy(f.p, f0.p, N);
    blob o = fresh(RREF_MAT_PACKEDBYTES + CANARY, fill);
    dirty();
    compress_rref(o.p, g, f.p);
    jbytes("b", o.p, RREF_MAT_PACKEDBYTES);
    jnum("over", beyond(o.p + RREF_MAT_PACKEDBYTES, CANARY, fill));
    generator_mat_t *r = gen_new(0xA5);
    blob x = fresh(RREF_MAT_PACKEDBYTES, 0); memcpy(x.p, o.p, x.n);
    expand_to_rref(r, x.p);
    jgen("g", r);
}
static void c_unpackrref(void) {
    blob b = hex(), b0 = copyof(b); generator_mat_t *r = gen_new(0xA5);
    if (b.n != RREF_MAT_PACKEDBYTES) abort();
    dirty();
    expand_to_rref(r, b.p);
    jgen("g", r); jnum("insame", same(b, b0));
}
static void c_sfexpand(void) {
    blob s = hex(); blob c = fresh(sizeof(rref_generator_mat_t), 0xA5);
    rref_generator_mat_t *r = (rref_generator_mat_t *)c.p;
    generator_mat_t *g = gen_new(0xA5);
    dirty();
    generator_SF_seed_expand(r, s.p);
    jmat("vals", r->values, sizeof r->values[0], K, N-K); jpos("pos", r->column_pos, N-K);
    generator_rref_expand(g, r);
    jgen("g", g);
}
static void c_compact(void) {
    generator_mat_t *g = gen_arg(), *g2 = gen_new(0xA5); blob f0 = hex(), f = fresh(PIV_LEN, 0);
    memcpy(f.p, f0.p, N);
    blob c = fresh(sizeof(rref_generator_mat_t), 0xA5);
    rref_generator_mat_t *r = (rref_generator_mat_t *)c.p;
    dirty();
    generator_rref_compact(r, g, f.p);
    jmat("vals", r->values, sizeof r->values[0], K, N-K); jpos("pos", r->column_pos, N-K);
    generator_rref_expand(g2, r);
    jgen("g", g2);
}
#endif
#if !defined(NO_FQ)
static void c_fqred(void) {   /* every operand the type of fq_red can hold, in blocks of 4096 */
    int blk = num();
    key("r"); puts_("[");
    for (unsigned i = 0; i < 4096; i++) { if (i) puts_(","); val(fq_red((FQ_DOUBLEPREC)(blk * 4096u + i))); }
    puts_("]");
}
static void c_fqinv(void) {
    key("r"); puts_("[");
    for (unsigned i = 0; i < 127; i++) { if (i) puts_(","); val(fq_inv(i)); }
    puts_("]");
}
static void c_fqmul(void) {   /* products as the code forms them, for one left operand */
    unsigned a = num();
    key("r"); puts_("[");
    for (unsigned b = 0; b < 127; b++) {
        if (b) puts_(",");
#if defined(DRV_PADDED)
        val(br_red(br_mul(a, b)));
#else
        val(fq_red((FQ_DOUBLEPREC)a * (FQ_DOUBLEPREC)b));
#endif
    }
    puts_("]");
}
#endif
#if !defined(NO_SAMPLE)
/* kind seed count: elements, then the 16 bytes which follow in the stream */
static void c_sample(void) {
    int kind = num(); blob s = hex(); size_t n = num();
    blob o = fresh(n + CANARY, 0xA5), nx = fresh(16, 0);
    dirty();
    if (kind < 2) {
        SHAKE_STATE_STRUCT st;
        initialize_csprng(&st, s.p, s.n);
        if (kind == 0) rand_range_q_state_elements(&st, o.p, n); else fq_star_rnd_state_elements(&st, o.p, n);
        csprng_randombytes(nx.p, 16, &st);
    } else {
        initialize_csprng(&platform_csprng_state, s.p, s.n);
        if (kind == 2) rand_range_q_elements(o.p, n); else fq_star_rnd_elements(o.p, n);
        randombytes(nx.p, 16);
    }
    jbytes("els", o.p, n); jbytes("next", nx.p, 16);
    jnum("over", beyond(o.p + n, CANARY, 0xA5));
}
/* permutation sampler through the platform generator: monomial_mat_rnd */
static void c_samplemono(void) {
    blob s = hex(), nx = fresh(16, 0); monomial_t *m = mono_new(0xA5);
    initialize_csprng(&platform_csprng_state, s.p, s.n);
    dirty();
    monomial_mat_rnd(m);
    randombytes(nx.p, 16);
    jmono(m); jbytes("next", nx.p, 16);
}
static void c_samplegen(void) {
    blob s = hex(), nx = fresh(16, 0); generator_mat_t *g = gen_new(0);
    initialize_csprng(&platform_csprng_state, s.p, s.n);
    dirty();
    generator_rnd(g);
    randombytes(nx.p, 16);
    jgen("g", g); jbytes("next", nx.p, 16);
}
#endif
#if !defined(NO_HASH)
/* incremental contexts: tokens  i<ctx><kind>  a<ctx>:<hex>  f<ctx>  s<ctx>:<n>
 * kinds: 0 shake128 1 shake256 2 sha3-256 3 sha3-384 4 sha3-512 */
static union { shake128incctx s1; shake256incctx s2; sha3_256incctx h2; sha3_384incctx h3; sha3_512incctx h5; } hx[8];
static int hk[8];
static void c_inc(void) {
    memset(hx, 0xA5, sizeof hx);
    key("outs"); puts_("[");
    int nout = 0;
    for (char *t = tok(); *t; t = tok()) {
        int c = t[1] - '0';
        if (t[0] == 'i') {
            hk[c] = t[2] - '0';
            switch (hk[c]) {
            case 0: shake128_inc_init(&hx[c].s1); break; case 1: shake256_inc_init(&hx[c].s2); break;
            case 2: sha3_256_inc_init(&hx[c].h2); break; case 3: sha3_384_inc_init(&hx[c].h3); break;
            default: sha3_512_inc_init(&hx[c].h5); }
        } else if (t[0] == 'a') {
            blob b = hexs(t + 3);
            switch (hk[c]) {
            case 0: shake128_inc_absorb(&hx[c].s1, b.p, b.n); break; case 1: shake256_inc_absorb(&hx[c].s2, b.p, b.n); break;
            case 2: sha3_256_inc_absorb(&hx[c].h2, b.p, b.n); break; case 3: sha3_384_inc_absorb(&hx[c].h3, b.p, b.n); break;
            default: sha3_512_inc_absorb(&hx[c].h5, b.p, b.n); }
        } else if (t[0] == 'f') {
            static const int dl[] = {0, 0, 32, 48, 64};
            blob o = fresh(dl[hk[c]] + CANARY, 0xA5);
            switch (hk[c]) {
            case 0: shake128_inc_finalize(&hx[c].s1); break; case 1: shake256_inc_finalize(&hx[c].s2); break;
            case 2: sha3_256_inc_finalize(o.p, &hx[c].h2); break; case 3: sha3_384_inc_finalize(o.p, &hx[c].h3); break;
            default: sha3_512_inc_finalize(o.p, &hx[c].h5); }
            if (hk[c] >= 2) { if (nout++) puts_(","); arr8(o.p, dl[hk[c]] + (beyond(o.p + dl[hk[c]], CANARY, 0xA5) ? 1 : 0)); }
        } else if (t[0] == 's') {
            size_t n = strtoul(t + 3, NULL, 10);
            blob o = fresh(n + CANARY, 0xA5);
            if (hk[c] == 0) shake128_inc_squeeze(o.p, n, &hx[c].s1); else shake256_inc_squeeze(o.p, n, &hx[c].s2);
            if (nout++) puts_(",");
            arr8(o.p, n + (beyond(o.p + n, CANARY, 0xA5) ? 1 : 0));
        }
    }
    puts_("]");
}
/* one call: kind outlen msg */
static void c_oneshot(void) {
    int kind = num(); size_t n = num(); blob m = hex();
    static const int dl[] = {0, 0, 32, 48, 64};
    if (kind >= 2) n = dl[kind];
    blob o = fresh(n + CANARY, 0xA5);
    dirty();
    switch (kind) {
    case 0: shake128(o.p, n, m.p, m.n); break; case 1: shake256(o.p, n, m.p, m.n); break;
    case 2: sha3_256(o.p, m.p, m.n); break; case 3: sha3_384(o.p, m.p, m.n); break;
    default: sha3_512(o.p, m.p, m.n); }
    jbytes("out", o.p, n); jnum("over", beyond(o.p + n, CANARY, 0xA5));
}
/* whole blocks: kind blocks1 blocks2 msg */
static void c_blocks(void) {
    int kind = num(); size_t b1 = num(), b2 = num(); blob m = hex();
    size_t rate = kind ? SHAKE256_RATE : SHAKE128_RATE;
    blob o = fresh((b1 + b2) * rate + CANARY, 0xA5);
    if (kind == 0) { shake128ctx c; shake128_absorb(&c, m.p, m.n); shake128_squeezeblocks(o.p, b1, &c); shake128_squeezeblocks(o.p + b1 * rate, b2, &c); }
    else { shake256ctx c; shake256_absorb(&c, m.p, m.n); shake256_squeezeblocks(o.p, b1, &c); shake256_squeezeblocks(o.p + b1 * rate, b2, &c); }
    jbytes("out", o.p, (b1 + b2) * rate); jnum("over", beyond(o.p + (b1 + b2) * rate, CANARY, 0xA5));
}
/* the same input of hi * 2^32 + lo bytes at once and in pieces: kind hi lo */
static void c_hugehash(void) {
    int kind = num();
    unsigned long long n = (unsigned long long)num() << 32;
    n += num();
    static const int dl[] = {64, 64, 32, 48, 64};
    unsigned char *m = vast(n + 1), d[64];
    if (!m) { jnum("nocmd", 1); return; }
    m[0] = 1; m[n - 1] = 2; m[n / 2] = 3; m[n & 0xffffffff] = 4;
    key("outs"); puts_("[");
    for (int way = 0; way < 3; way++) {
        size_t piece = way == 2 ? (size_t)100000007 : n;
        memset(d, 0, sizeof d);
        if (way == 0) switch (kind) {
            case 0: shake128(d, 64, m, n); break; case 1: shake256(d, 64, m, n); break;
            case 2: sha3_256(d, m, n); break; case 3: sha3_384(d, m, n); break;
            default: sha3_512(d, m, n); }
        else {
#define PIECES(T, P) do { T x; P##_init(&x); for (size_t a = 0; a < n; a += piece) P##_absorb(&x, m + a, n - a < piece ? n - a : piece); FIN(P) } while (0)
#define FIN(P) P##_finalize(&x); P##_squeeze(d, 64, &x);
            if (kind == 0) PIECES(shake128incctx, shake128_inc); else if (kind == 1) PIECES(shake256incctx, shake256_inc);
#undef FIN
#define FIN(P) P##_finalize(d, &x);
            if (kind == 2) PIECES(sha3_256incctx, sha3_256_inc); else if (kind == 3) PIECES(sha3_384incctx, sha3_384_inc); else if (kind == 4) PIECES(sha3_512incctx, sha3_512_inc);
        }
        if (way) puts_(",");
        arr8(d, dl[kind]);
    }
    puts_("]");
    munmap(m, n + 1);
}
/* the stream interface the scheme uses: seed, then pieces */
static void c_stream(void) {
    blob s = hex();
    SHAKE_STATE_STRUCT st;
    memset(&st, 0xA5, sizeof st);
    initialize_csprng(&st, s.p, s.n);
    key("outs"); puts_("[");
    int nout = 0;
    for (char *t = tok(); *t; t = tok()) {
        size_t n = strtoul(t, NULL, 10);
        blob o = fresh(n + CANARY, 0xA5);
        csprng_randombytes(o.p, n, &st);
        if (nout++) puts_(",");
        arr8(o.p, n + (beyond(o.p + n, CANARY, 0xA5) ? 1 : 0));
    }
    puts_("]");
}
#endif

static const struct { const char *name; void (*f)(void); } cmds[] = {
    {"params", c_params}, {"rng", c_rng}, {"probe", c_probe}, {"dirty", c_dirty}, {"import", c_nop},
    {"keypair", c_keypair}, {"sign", c_sign}, {"open", c_open}, {"openmt", c_openmt}, {"huge", c_huge},
#if !defined(NO_TREE)
    {"tree", c_tree}, {"treetrip", c_treetrip}, {"treepath", c_treepath}, {"rebuild", c_rebuild},
#endif
#if !defined(NO_CHALLENGE)
    {"challenge", c_challenge},
#endif
#if !defined(NO_MONO)
    {"ephem", c_ephem}, {"priv", c_priv}, {"monornd", c_monornd}, {"monomul", c_monomul}, {"monoinv", c_monoinv},
    {"monoid", c_monoid}, {"compose", c_compose},
#endif
#if !defined(NO_ACTION)
    {"packact", c_packact}, {"unpackact", c_unpackact}, {"valid", c_valid},
#endif
#if !defined(NO_CODES)
    {"gmul", c_gmul}, {"rref", c_rref}, {"commit", c_commit}, {"applyact", c_applyact}, {"lexmin", c_lexmin}, {"lexsort", c_lexsort},
#endif
#if !defined(NO_RREFPACK)
    {"packrref", c_packrref}, {"unpackrref", c_unpackrref}, {"sfexpand", c_sfexpand}, {"compact", c_compact},
#endif
#if !defined(NO_FQ)
    {"fqred", c_fqred}, {"fqinv", c_fqinv}, {"fqmul", c_fqmul},
#endif
#if !defined(NO_SAMPLE)
    {"sample", c_sample}, {"samplemono", c_samplemono}, {"samplegen", c_samplegen},
#endif
#if !defined(NO_HASH)
    {"inc", c_inc}, {"oneshot", c_oneshot}, {"blocks", c_blocks}, {"stream", c_stream}, {"hugehash", c_hugehash},
#endif
};

static void *server(void *unused) {
    (void)unused;
    ssize_t l;
    for (unsigned i = 0; i < (1 << 16); i++) decl_[i] = snprintf(dec[i], sizeof dec[i], "%u", i);
    while ((l = getline(&line, &linecap, stdin)) > 0) {
        cur = line; on = 0; first = 1;
        char *c = tok();
        unsigned i, nc = sizeof cmds / sizeof cmds[0];
        for (i = 0; i < nc; i++) if (!strcmp(cmds[i].name, c)) break;
        if (i < nc) cmds[i].f(); else jnum("nocmd", 1);
        if (first) puts_("{");
        puts_("}\n");
        fwrite(out, 1, on, stdout); fflush(stdout);
        for (size_t k = 0; k < nlive; k++) free(live[k].p);
        nlive = 0;
    }
    return NULL;
}
int main(void) {
    /* a thread, for the size of its stack */
    pthread_t th; pthread_attr_t at;
    pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512u << 20);
    if (pthread_create(&th, &at, server, NULL)) return 3;
    pthread_join(th, NULL);
    return 0;
}
