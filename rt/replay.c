/* Replays one recorded counterexample against the machine code of the harness.
   usage: replay lib.so entry args(comma separated or -) inputs-file
   Exit 10: the violation happened (assertion, panic, or no end), 0: it did not, 2: the recording does not fit. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <stdbool.h>

static struct { uint32_t id; uint64_t v; } in[100000];
static int nin, pos, pmode;

static uint64_t take(uint32_t id) {
    if (pos >= nin) { return 0; }
    if (in[pos].id != id) { printf("REPLAY-MISFIT wanted input %u, recording has %u\n", id, in[pos].id); fflush(stdout); _exit(2); }
    return in[pos++].v;
}
uint8_t sym_u8(uint32_t id) { return take(id); }
uint16_t sym_u16(uint32_t id) { return take(id); }
uint32_t sym_u32(uint32_t id) { return take(id); }
uint64_t sym_u64(uint32_t id) { return take(id); }
bool sym_bool(uint32_t id) { return take(id) & 1; }
uint32_t sym_range(uint32_t n, uint32_t id) { uint64_t v = take(id); if (v >= n) { printf("REPLAY-MISFIT range\n"); fflush(stdout); _exit(2); } return v; }
void sym_assume(bool b) { if (!b) { printf("REPLAY-MISFIT assumption\n"); fflush(stdout); _exit(2); } }
void sym_assert(bool b, uint32_t id) { if (!b) { printf("REPRODUCED assertion %u\n", id); fflush(stdout); _exit(10); } }
void sym_observe(uint64_t v) { printf("OBS %lu\n", v); }
void sym_cover(uint32_t id) { (void)id; }
void sym_panic_mode(uint32_t n) { pmode = n; }
void sym_kill(void) { _exit(0); }
static int strict;
void sym_limit(uint64_t n) { strict = n >> 63; alarm(n >> 63 ? 20 : n ? 2 : 0); }
uint64_t sym_conc(uint64_t x) { return x; }
bool sym_branch(bool b) { return b; }
bool sym_active(void) { return true; }
void sym_print(uint64_t x) { fprintf(stderr, "print %lu\n", x); }

/* the surroundings, as the executor models them (see sym_world) */
static uint32_t world;
static int worlds;
static int64_t env[2] = {-1, -1};
void sym_world(uint32_t n) { world = n; worlds = 1; env[0] = env[1] = -1; }
static int64_t surroundings(int which) {
    if (env[which] < 0) env[which] = (which ? 1700000000 : 1) + (int64_t)take(0x70000000 + world * 2 + which);
    return env[which];
}
#include <sys/syscall.h>
#include <time.h>
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; memset(p, world, n); return n; }
pid_t getpid(void) { return worlds ? (pid_t)surroundings(0) : (pid_t)syscall(SYS_getpid); }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!worlds) return syscall(SYS_clock_gettime, c, t);
    t->tv_sec = surroundings(1); t->tv_nsec = 1; return 0;
}
char *getenv(const char *n) {
    static char e[8];
    (void)n;
    if (!worlds || !world) return NULL;
    e[0] = '0' + world; return e;
}

static void on_abort(int s) {
    (void)s;
    if (pmode) { static const char m[] = "panic (not a violation here)\n"; write(1, m, sizeof m - 1); _exit(0); }
    static const char m[] = "REPRODUCED panic\n"; write(1, m, sizeof m - 1); _exit(10);
}
static void on_alarm(int s) {
    (void)s;
    if (pmode && !strict) _exit(0);
    static const char m[] = "REPRODUCED no end after seconds\n"; write(1, m, sizeof m - 1); _exit(10);
}

int main(int argc, char **argv) {
    if (argc < 5) return 2;
    FILE *f = fopen(argv[4], "r");
    if (!f) return 2;
    unsigned long id, w, v;
    while (fscanf(f, "%lu %lu %lu", &id, &w, &v) == 3) { in[nin].id = id; in[nin].v = v; nin++; }
    fclose(f);
    void *h = dlopen(argv[1], RTLD_NOW);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    void *p = dlsym(h, argv[2]);
    if (!p) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    uint64_t a[8] = {0};
    int n = 0;
    if (strcmp(argv[3], "-")) for (char *t = strtok(argv[3], ","); t && n < 8; t = strtok(NULL, ",")) a[n++] = strtoull(t, NULL, 0);
    signal(SIGABRT, on_abort); signal(SIGSEGV, on_abort); signal(SIGILL, on_abort); signal(SIGALRM, on_alarm); signal(SIGTRAP, on_abort); signal(SIGFPE, on_abort); signal(SIGBUS, on_abort);
    alarm(60);
    ((void (*)(uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t, uint32_t))p)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    printf("NOT-REPRODUCED %s\n", pos == nin ? "" : "(inputs left)");
    return 0;
}
