/* Native side of the symbolic-execution intrinsics: replays a solver model (one decimal value
 * per line, in call order, in the file named by SYMEX_INPUTS) against the real code. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/stat.h>
#include <signal.h>
static FILE *in; static FILE *obs; static int panic_ok; static int init_done;
static void on_abort(int s) { (void)s; if (obs) fflush(obs); if (panic_ok) _exit(97); static const char m[] = "REPLAY-PANIC\n"; if (write(2, m, sizeof m - 1)) {} _exit(96); }
static void init(void) {
    if (init_done) return; init_done = 1;
    const char *p = getenv("SYMEX_INPUTS"); if (p) in = fopen(p, "r");
    const char *o = getenv("SYMEX_OBS"); if (o) obs = fopen(o, "w");
    signal(SIGABRT, on_abort);
}
__attribute__((constructor)) static void ctor(void) { init(); }
uint64_t symex_var(const char *n, uint64_t l, uint32_t bits) {
    init(); uint64_t v = 0; char b[64];
    if (in && fgets(b, sizeof b, in)) v = strtoull(b, 0, 10);
    if (bits < 64) v &= (1ull << bits) - 1;
    if (getenv("SYMEX_SHOW")) fprintf(stderr, "var %.*s = %llu\n", (int)l, n, (unsigned long long)v);
    return v;
}
void symex_assume(uint64_t c) { if (!c) { if (obs) fflush(obs); fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); _exit(98); } }
void symex_assert(uint64_t c, const char *m, uint64_t n) { if (!c) { if (obs) fflush(obs); fprintf(stderr, "REPLAY-VIOLATION: %.*s\n", (int)n, m); _exit(99); } }
void symex_reach(const char *m, uint64_t n) { (void)m; (void)n; }
void symex_observe(uint64_t v) { init(); if (obs) { fprintf(obs, "%llu\n", (unsigned long long)v); fflush(obs); } }
void symex_fork_loads(uint64_t f) { (void)f; }
void symex_panic_ok(uint64_t f) { panic_ok = f != 0; }
uint64_t symex_is_symbolic(void) { return 0; }
uint64_t symex_tier(void) { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
uint64_t symex_concretize(uint64_t v) { return v; }
void symex_note(const char *m, uint64_t n) { fprintf(stderr, "NOTE: %.*s\n", (int)n, m); }
static const char *root(void) { const char *r = getenv("SYMEX_FSROOT"); if (!r) { fprintf(stderr, "SYMEX_FSROOT unset\n"); _exit(95); } return r; }
/* every path handed to these starts with the scratch root */
static char *cp(const char *p, uint64_t n) { char *s = malloc(n + 1); memcpy(s, p, n); s[n] = 0; const char *r = root(); if (strncmp(s, r, strlen(r)) || strstr(s, "/../")) { fprintf(stderr, "path outside scratch root\n"); _exit(95); } return s; }
static void parents(char *s) { for (char *q = s + 1; *q; q++) if (*q == '/') { *q = 0; mkdir(s, 0755); *q = '/'; } }
void symex_fs_file(const char *p, uint64_t n, const char *d, uint64_t k) { char *s = cp(p, n); parents(s); FILE *f = fopen(s, "w"); if (!f) { perror(s); _exit(95); } fwrite(d, 1, k, f); fclose(f); free(s); }
void symex_fs_dir(const char *p, uint64_t n) { char *s = cp(p, n); parents(s); mkdir(s, 0755); free(s); }
uint64_t symex_fs_get(const char *p, uint64_t n, char *b, uint64_t cap) { char *s = cp(p, n); struct stat st; if (stat(s, &st)) { free(s); return ~0ull; } if (S_ISDIR(st.st_mode)) { free(s); return ~0ull - 1; } FILE *f = fopen(s, "r"); if (!f) { free(s); return ~0ull; } uint64_t k = fread(b, 1, cap, f); (void)k; fclose(f); free(s); return st.st_size; }
uint64_t symex_fs_count(uint64_t f) { (void)f; return 0; }
/* arithmetic modulo 2^31-1 */
#define FP 0x7fffffffull
uint32_t symex_fadd(uint32_t a, uint32_t b) { return ((uint64_t)a + b) % FP; }
uint32_t symex_fsub(uint32_t a, uint32_t b) { return ((uint64_t)a + 2 * FP - b) % FP; }
uint32_t symex_fmul(uint32_t a, uint32_t b) { return (uint64_t)a * b % FP; }
uint32_t symex_finv(uint32_t a) { uint64_t r = 1, x = a; for (uint64_t e = FP - 2; e; e >>= 1) { if (e & 1) r = r * x % FP; x = x * x % FP; } return r; }
uint32_t symex_felt(const char *n, uint64_t l) { uint32_t v = symex_var(n, l, 32); if (v >= FP) v = 0; return v; }
