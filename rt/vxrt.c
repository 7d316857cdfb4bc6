/* Native counterpart of the symbolic executor's interface: inputs come from a recorded assignment. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

static FILE *in; static int opened;
static char line[1 << 16];
static long *shpos; /* how far a trial run has read */
static void diverged(const char *w, const char *name, int n) {
    printf("VXDIVERGED %s %.*s\n", w, n, name); fflush(stdout); _exit(88);
}
/* next recorded value for input `name`; little-endian into out */
static void next(const char *name, uint64_t nlen, uint8_t *out, uint64_t nbytes) {
    if (!opened) { const char *f = getenv("VX_REPLAY"); opened = 1; in = f ? fopen(f, "r") : NULL; }
    if (!in) diverged("noinput", name, (int)nlen);
    /* unbuffered position handling so that forked trial runs can share the stream */
    if (!fgets(line, sizeof line, in)) diverged("exhausted", name, (int)nlen);
    if (shpos) *shpos = ftell(in);
    char *sp = strrchr(line, ' ');
    if (!sp) diverged("format", name, (int)nlen);
    if ((uint64_t)(sp - line) != nlen || memcmp(line, name, nlen)) diverged("name", name, (int)nlen);
    char *h = sp + 1; size_t l = strcspn(h, "\n");
    memset(out, 0, nbytes);
    for (uint64_t i = 0; i < nbytes && 2 * i + 1 < l + 0; i++) {
        char b[3] = { h[l - 2 - 2 * i], h[l - 1 - 2 * i], 0 };
        out[i] = (uint8_t)strtoul(b, NULL, 16);
    }
}
int32_t vx_on(void) { return 0; }
int32_t vx_issym(const uint8_t *p, uint64_t n) { (void)p; (void)n; return 0; }
uint8_t vx_simp(uint8_t v) { return v; }
int32_t vx_f1600(uint64_t *p) { (void)p; return 0; }
int32_t vx_bigop(uint64_t op, uint8_t *o, const uint8_t *a, const uint8_t *b, uint64_t ni, uint64_t no) { (void)op; (void)o; (void)a; (void)b; (void)ni; (void)no; return 0; }
void vx_sym(uint8_t *out, uint64_t n, const char *name, uint64_t l) { next(name, l, out, n); }
uint64_t vx_range(uint64_t lo, uint64_t hi, const char *name, uint64_t l) { uint64_t v = 0; next(name, l, (uint8_t *)&v, 8); if (v < lo || v > hi) diverged("range", name, (int)l); return v; }
_Bool vx_bool(const char *name, uint64_t l) { uint8_t v = 0; next(name, l, &v, 1); return v & 1; }
uint64_t vx_choose(uint64_t n, const char *name, uint64_t l) { return vx_range(0, n - 1, name, l); }
void vx_assume(_Bool c) { if (!c) { printf("VXASSUME\n"); fflush(stdout); _exit(87); } }
void vx_assert(_Bool c, const char *m, uint64_t l) { if (!c) { printf("VXVIOLATION %.*s\n", (int)l, m); fflush(stdout); _exit(86); } }
void vx_reach(const char *m, uint64_t l) { printf("VXREACH %.*s\n", (int)l, m); }
uint64_t vx_concrete(uint64_t v) { return v; }
void vx_observe(const char *m, uint64_t l, uint64_t v) { printf("VXOBS %.*s %016llx\n", (int)l, m, (unsigned long long)v); }
void vx_trace(const char *m, uint64_t l, uint64_t v) { printf("VXTRACE %.*s %llu\n", (int)l, m, (unsigned long long)v); }
void vx_flat_hash(void) {}
/* A panicking body must leave no trace: try it in a child first. */
int32_t vx_try(void (*f)(void *), void *d) {
    fflush(stdout);
    if (!opened) { const char *fn = getenv("VX_REPLAY"); opened = 1; in = fn ? fopen(fn, "r") : NULL; }
    if (!shpos) shpos = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    long pos = in ? ftell(in) : 0;
    *shpos = pos;
    pid_t p = fork();
    if (p == 0) {
        if (in) { /* private stream */ const char *fn = getenv("VX_REPLAY"); in = fopen(fn, "r"); fseek(in, pos, SEEK_SET); }
        freopen("/dev/null", "w", stderr);
        /* output of the trial run is dropped, except for verdicts */
        int keep = dup(1); FILE *o = freopen("/dev/null", "w", stdout); (void)o; (void)keep;
        f(d); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { if (in) fseek(in, *shpos, SEEK_SET); return 1; }
    /* normal end, or an assertion / divergence inside: rerun in this process */
    f(d);
    return 0;
}
