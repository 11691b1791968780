/* Conformance driver for one copy of KAT_NIST_rng.c; protocol of driver.c. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "KAT_NIST_rng.h"

static char *line, *cur; static size_t cap;
static char *tok(void) {
    while (*cur == ' ') cur++;
    char *s = cur;
    while (*cur && *cur != ' ' && *cur != '\n') cur++;
    if (*cur) *cur++ = 0;
    return s;
}
static int hv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
/* exact size, so that reading past the end can be seen; NULL for none */
static unsigned char *hex(size_t *n) {
    char *s = tok();
    if (!strcmp(s, "-")) { *n = 0; return NULL; }
    *n = strlen(s) / 2;
    unsigned char *p = malloc(*n ? *n : 1);
    for (size_t i = 0; i < *n; i++) p[i] = hv(s[2*i]) << 4 | hv(s[2*i+1]);
    return p;
}
static unsigned char *dup_(const unsigned char *p, size_t n) { unsigned char *q = malloc(n ? n : 1); if (n) memcpy(q, p, n); return q; }
static void bytes(const unsigned char *p, size_t n) {
    printf("[");
    for (size_t i = 0; i < n; i++) printf(i ? ",%u" : "%u", p[i]);
    printf("]");
}
#define GUARD 64
static KAT_NIST_AES_XOF_struct ctx[8];

static int canary(const unsigned char *b, size_t n) {
    for (size_t i = 0; i < GUARD; i++) if (b[i] != 0xC3 || b[GUARD + n + i] != 0xC3) return 1;
    return 0;
}

int main(void) {
    while (getline(&line, &cap, stdin) > 0) {
        cur = line;
        char *c = tok();
        if (!strcmp(c, "init")) {
            size_t n, m;
            unsigned char *e = hex(&n), *p = hex(&m), *e2 = dup_(e, n), *p2 = dup_(p, m);
            KAT_NIST_randombytes_init(e, p, 256);
            int same = !memcmp(e, e2, n) && (!p || !memcmp(p, p2, m));
            printf("{\"insame\":%d}\n", same);
            free(e); free(p); free(e2); free(p2);
        } else if (!strcmp(c, "bytes") || !strcmp(c, "expand")) {
            int x = c[0] == 'e', i = x ? atoi(tok()) : 0;
            size_t n = strtoull(tok(), NULL, 10), tail = strtoull(tok(), NULL, 10);
            int fill = atoi(tok());
            unsigned char *b = malloc(n + 2 * GUARD);
            if (!b) return 3;
            memset(b, 0xC3, GUARD); memset(b + GUARD, fill, n); memset(b + GUARD + n, 0xC3, GUARD);
            int r = x ? KAT_NIST_seedexpander(&ctx[i], b + GUARD, n) : KAT_NIST_randombytes(b + GUARD, n);
            printf("{\"ret\":%d,\"over\":%d,\"out\":", r, canary(b, n));
            bytes(b + GUARD + n - tail, tail);
            printf("}\n");
            free(b);
        } else if (!strcmp(c, "far")) {      /* a request of nb blocks and nr bytes: its ends */
            size_t n = 16 * strtoull(tok(), NULL, 10), head, tail;
            n += strtoull(tok(), NULL, 10); head = strtoull(tok(), NULL, 10); tail = strtoull(tok(), NULL, 10);
            unsigned char *b = malloc(n + 2 * GUARD);
            if (!b) return 3;
            memset(b, 0xC3, GUARD); memset(b + GUARD + n, 0xC3, GUARD);
            int r = KAT_NIST_randombytes(b + GUARD, n);
            printf("{\"ret\":%d,\"over\":%d,\"head\":", r, canary(b, n));
            bytes(b + GUARD, head);
            printf(",\"out\":");
            bytes(b + GUARD + n - tail, tail);
            printf("}\n");
            free(b);
        } else if (!strcmp(c, "xinit")) {
            int i = atoi(tok());
            size_t n, m;
            unsigned char *e = hex(&n), *p = hex(&m), *e2 = dup_(e, n), *p2 = dup_(p, m);
            unsigned long max = strtoull(tok(), NULL, 10);
            int r = KAT_NIST_seedexpander_init(&ctx[i], e, p, max);
            int same = !memcmp(e, e2, n) && !memcmp(p, p2, m);
            printf("{\"ret\":%d,\"insame\":%d}\n", r, same);
            free(e); free(p); free(e2); free(p2);
        } else if (!strcmp(c, "xnull")) {
            int i = atoi(tok());
            unsigned long n = strtoull(tok(), NULL, 10);
            printf("{\"ret\":%d}\n", KAT_NIST_seedexpander(&ctx[i], NULL, n));
        } else printf("{\"nocmd\":1}\n");
        fflush(stdout);
    }
    return 0;
}
