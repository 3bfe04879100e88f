/* native run of a harness (the same optimised code the engine reads) on concrete input: HARNESS HEX SCRATCHDIR */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
static unsigned char in[1 << 16]; static size_t nin, pos; static char *root;
void vp_symbolic(unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++, pos++) p[i] = pos < nin ? in[pos] : 0; }
static void done(int c) { fflush(stdout); _Exit(c); }
void vp_assume(_Bool b) { if (!b) { puts("ASSUME-FAILED"); done(20); } }
void vp_assert(_Bool b, uint32_t id, const char *p, size_t n) { if (!b) { printf("ASSERT-FAILED: %.*s\n", (int)n, p); done(10); } }
void vp_cover(uint32_t id) { printf("COVER %u\n", id); }
void vp_note(const char *p, size_t n) { printf("NOTE %.*s\n", (int)n, p); }
void vp_file(const char *p, size_t n, const char *q, size_t m) {
    char b[4096]; if (n >= sizeof b || strncmp(p, root, strlen(root)) || memmem(p, n, "..", 2)) { puts("BAD-PATH"); done(31); }
    memcpy(b, p, n); b[n] = 0;
    for (char *s = b + 1; (s = strchr(s, '/')); s++) { *s = 0; mkdir(b, 0777); *s = '/'; }
    FILE *f = fopen(b, "wb"); if (!f || fwrite(q, 1, m, f) != m) { puts("FILE-ERROR"); done(32); } fclose(f);
}
uint64_t vp_hash_get(void) { return 0; }
uint64_t vp_concrete(uint64_t x) { return x; }
void vp_hash_mode(uint64_t m) {}
size_t vp_root(char *p, size_t cap) { size_t n = strlen(root); if (n > cap) n = cap; memcpy(p, root, n); return n; }
#define H(x) extern void x(void);
HARNESSES
#undef H
static void (*fn)(void);
static void *go(void *a) { fn(); puts("HARNESS-OK"); done(0); return 0; }
int main(int c, char **a) {
    if (c < 4) return 30;
#define H(x) if (!strcmp(a[1], #x)) fn = x;
    HARNESSES
    if (!fn) { puts("NO-HARNESS"); return 30; }
    for (const char *h = a[2]; h[0] && h[1]; h += 2) { char t[3] = { h[0], h[1], 0 }; in[nin++] = strtoul(t, 0, 16); }
    root = a[3];
    pthread_attr_t at; pthread_t t; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 31 << 20);
    pthread_create(&t, &at, go, 0); pthread_join(t, 0); return 33;
}
