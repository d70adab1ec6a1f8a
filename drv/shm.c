/* Users of one shared-memory cache, run one access to the shared memory at a time in every order.
   The library is compiled with -fsanitize=thread; the calls that puts before every access come here instead of to libtsan.
   Users are fibers of one thread.  All schedules with a bounded number of preemptions are run, each from the start. */
#include "common.h"
#include "handlebars_cache_private.h"
#include "handlebars_string.h"
#include <ucontext.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>

/* ---- shared memory at a fixed place between untouchable pages ---- */
static char *arena; static size_t arena_size = 1 << 20, shm_size; static char *shm;
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_mprotect(void *, size_t, int);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
    if (!(fl & MAP_ANONYMOUS) || !(fl & MAP_SHARED)) return __real_mmap(a, n, prot, fl, fd, o);
    if (n > arena_size) { errno = ENOMEM; return MAP_FAILED; }
    shm = __real_mmap(arena + 65536, n, prot, fl | MAP_FIXED, fd, o); shm_size = n; return shm;
}
int __wrap_munmap(void *a, size_t n) {
    if (a != shm) return __real_munmap(a, n);
    __real_mmap(shm, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); shm = NULL; return 0;
}
static long now; static time_t started;
time_t __wrap_time(time_t *t);

/* ---- scheduler ---- */
#define MAXU 4
#define MAXPT 200000
struct fiber { ucontext_t c; char *stack; int done, patient; void *wants; void (*fn)(int); int merged; long steps; };
static struct fiber F[MAXU + 1]; static int nf, cur, budget, spent, active; static ucontext_t home;
static struct { int n, c; } trail[MAXPT]; static int ntrail, tpos; static long points, limit; static int stuck, diverged;
static struct { void *a; int owner; } locks[8]; static int nlocks;
static int *lock_of(void *a) { for (int i = 0; i < nlocks; i++) if (locks[i].a == a) return &locks[i].owner; locks[nlocks].a = a; locks[nlocks].owner = 0; return &locks[nlocks++].owner; }
static int runnable(int i) { return !F[i].done && (!F[i].wants || !*lock_of(F[i].wants)); }
static int choose(int n) {
    if (n <= 1) return 0;
    if (tpos >= MAXPT) { stuck = 1; return 0; }
    if (tpos == ntrail) { trail[ntrail].n = n; trail[ntrail].c = 0; ntrail++; }
    else if (trail[tpos].n != n) { diverged = 1; if (trail[tpos].c >= n) trail[tpos].c = 0; trail[tpos].n = n; }
    return trail[tpos++].c;
}
static void go(int to) { if (to == cur) return; int me = cur; cur = to; F[to].steps = 0; if (me) swapcontext(&F[me].c, to ? &F[to].c : &home); else swapcontext(&home, &F[to].c); }
/* somebody else has to run (the current one waits or is done); with the current one last when it may go on */
static void yield_(int may) {
    int o[MAXU + 1], n = 0;
    for (int i = 1; i <= nf; i++) if (i != cur && runnable(i)) o[n++] = i;
    if (!n) { if (!may) { int all = 1; for (int i = 1; i <= nf; i++) all &= F[i].done; if (!all) stuck = 1; go(0); } return; }
    int k = choose(n + (may == 1));
    if (k < n) go(o[k]); else F[cur].patient = 0;
}
static void point(int mergeable) {
    if (!active || !cur) return;
    if (stuck) go(0);
    if (++points > limit) { stuck = 1; go(0); }
    if (mergeable && F[cur].merged) return;
    F[cur].merged = mergeable;
    if (++F[cur].steps > 3000) { F[cur].steps = 0; yield_(2); return; }   /* waits actively */
    if (spent >= budget) return;
    int o[MAXU + 1], n = 1; o[0] = cur;
    for (int i = 1; i <= nf; i++) if (i != cur && runnable(i)) o[n++] = i;
    int k = choose(n);
    if (k) { spent++; go(o[k]); }
}
static int is_shm(void *a) { return shm && (char *) a >= shm && (char *) a < shm + shm_size; }
/* the data area: everything behind the first page that is not the table; reads of it are of what does not change */
static char *data_from;
static void rd(void *a) { if (is_shm(a)) point((char *) a >= data_from); }
static void wr(void *a) { if (is_shm(a)) point(0); }
#define RW(n) void __tsan_read##n(void *a) { rd(a); } void __tsan_write##n(void *a) { wr(a); } void __tsan_unaligned_read##n(void *a) { rd(a); } void __tsan_unaligned_write##n(void *a) { wr(a); } \
    void __tsan_volatile_read##n(void *a) { rd(a); } void __tsan_volatile_write##n(void *a) { wr(a); } void __tsan_read##n##_pc(void *a, void *p) { rd(a); } void __tsan_write##n##_pc(void *a, void *p) { wr(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { rd(a); } void __tsan_write_range(void *a, unsigned long n) { wr(a); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) {} void __tsan_func_exit(void *p) {}
void __tsan_vptr_update(void **a, void *b) {} void __tsan_vptr_read(void **a) {}
void __tsan_atomic_thread_fence(int m) {} void __tsan_atomic_signal_fence(int m) {}
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int m) { wr((void *) a); return *a; } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int m) { wr((void *) a); *a = v; } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int m) { wr((void *) a); T o = *a; *a = v; return o; } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int m) { wr((void *) a); T o = *a; *a = (T) (o + v); return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int m) { wr((void *) a); T o = *a; *a = (T) (o - v); return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int m) { wr((void *) a); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int m) { wr((void *) a); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int m) { wr((void *) a); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int m, int f) { wr((void *) a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, m, f); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int m, int f) { wr((void *) a); T o = *a; if (o == e) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t); int __real_memcmp(const void *, const void *, size_t);
/* copies can be seen half done */
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (active && cur && (is_shm(d) || is_shm((void *) s))) { if (is_shm(d)) { wr(d); __real_memcpy(d, s, n / 2); wr(d); __real_memcpy((char *) d + n / 2, (const char *) s + n / 2, n - n / 2); return d; } rd((void *) s); }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) { if (active && cur) { if (is_shm(d)) wr(d); else if (is_shm((void *) s)) rd((void *) s); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) {
    if (active && cur && is_shm(d)) { wr(d); __real_memset(d, v, n / 2); wr(d); __real_memset((char *) d + n / 2, v, n - n / 2); return d; }
    return __real_memset(d, v, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (active && cur) { rd((void *) a); rd((void *) b); } return __real_memcmp(a, b, n); }
int __wrap_mprotect(void *a, size_t n, int p) { wr(a); return __real_mprotect(a, n, p); }
time_t __wrap_time(time_t *t) { if (active && cur) point(0); if (t) *t = now; return now; }
int __wrap_usleep(unsigned us) { if (active && cur && F[cur].patient) yield_(1); return 0; }
int __wrap_nanosleep(const void *a, void *b) { return __wrap_usleep(0); }
int __wrap_sched_yield(void) { return __wrap_usleep(0); }
static int take(void *l, int try) {
    if (!active || !cur) { *lock_of(l) = 1; return 0; }
    point(0);
    while (*lock_of(l)) { if (try) return EBUSY; F[cur].wants = l; F[cur].merged = 0; yield_(0); F[cur].wants = NULL; }
    *lock_of(l) = cur; return 0;
}
static int give(void *l) { if (active && cur) point(0); *lock_of(l) = 0; return 0; }
int __wrap_pthread_spin_init(void *l, int p) { *lock_of(l) = 0; return 0; }
int __wrap_pthread_spin_lock(void *l) { return take(l, 0); } int __wrap_pthread_spin_trylock(void *l) { return take(l, 1); } int __wrap_pthread_spin_unlock(void *l) { return give(l); }
int __wrap_pthread_mutex_lock(void *l) { return take(l, 0); } int __wrap_pthread_mutex_trylock(void *l) { return take(l, 1); } int __wrap_pthread_mutex_unlock(void *l) { return give(l); }

/* ---- programs ---- */
#define NPROG 16
static struct handlebars_context *pctx; static int nprog, nkey; static struct handlebars_module *prog[NPROG], *mine[MAXU + 1][NPROG];
static struct handlebars_string *keys[MAXU + 1][NPROG];
static struct handlebars_module *norm(struct handlebars_module *m) {
    struct handlebars_module *c = malloc(m->size); memcpy(c, m, m->size);
    handlebars_module_patch_pointers(c); handlebars_module_normalize_pointers(c, NULL);
    c->ts = 0; c->hash = 0; memset(c->header, 0, sizeof c->header); return c;
}
static void setup(J *q) {
    J *k = jget(q, "keys"), *t = jget(q, "tmpls");
    pctx = handlebars_context_ctor(); nkey = (int) jlen(k); nprog = (int) jlen(t);
    for (int j = 0; j < nprog; j++) {
        struct handlebars_parser *p = handlebars_parser_ctor(pctx);
        struct handlebars_ast_node *ast = handlebars_parse_ex(p, jhstr(pctx, jat(t, j)), 0);
        struct handlebars_compiler *co = handlebars_compiler_ctor(pctx);
        prog[j] = norm(handlebars_program_serialize(pctx, handlebars_compiler_compile_ex(co, ast)));
        for (int u = 0; u <= MAXU; u++) { mine[u][j] = malloc(prog[j]->size); memcpy(mine[u][j], prog[j], prog[j]->size); memcpy(mine[u][j]->header, "HBSCM\0\0", 8); handlebars_module_patch_pointers(mine[u][j]); }
    }
    for (int u = 0; u <= MAXU; u++) for (int i = 0; i < nkey; i++) { keys[u][i] = jhstr(pctx, jat(k, i)); handlebars_string_addref(keys[u][i]); }
}
static void cleanup(void) { for (int j = 0; j < nprog; j++) { free(prog[j]); for (int u = 0; u <= MAXU; u++) free(mine[u][j]); } handlebars_context_dtor(pctx); }
static char *scratch_; static size_t scratch_n;
static int which_(struct handlebars_module *m) {
    if (!is_shm(m) || m->addr != m) return -2;
    for (int j = 0; j < nprog; j++) if (m->size == prog[j]->size && m->version == prog[j]->version && m->opcode_count == prog[j]->opcode_count && m->program_count == prog[j]->program_count) {
        if (scratch_n < m->size) { scratch_ = realloc(scratch_, scratch_n = m->size + 4096); }
        struct handlebars_module *c = (void *) scratch_; memcpy(c, m, m->size);
        /* pointers stay inside */
        char *b = (char *) m, *e = b + m->size;
        if ((char *) m->programs < b || (char *) m->programs > e || (char *) m->opcodes < b || (char *) m->opcodes > e) return -1;
        handlebars_module_patch_pointers(c); handlebars_module_normalize_pointers(c, NULL);
        c->ts = 0; c->hash = 0; memset(c->header, 0, sizeof c->header);
        return memcmp(c, prog[j], c->size) ? -1 : j;
    }
    return -1;
}

static int which(struct handlebars_module *m) { int a = active; active = 0; int r = which_(m); active = a; return r; }

/* ---- one schedule ---- */
struct o_ { int op, a, b; };
static struct o_ ops[MAXU + 1][64]; static int nops[MAXU + 1];     /* 0: before, 1..: users; after: probe of every key by user 1 */
static struct handlebars_context *uctx[MAXU + 1]; static struct handlebars_cache *uc[MAXU + 1], *cache;
static struct { struct handlebars_module *m; int p, k; } held[MAXU + 1][64]; static int nheld[MAXU + 1];
static char ev[16384]; static int nev;
#define E(...) do { if (nev < (int) sizeof ev - 200) nev += sprintf(ev + nev, __VA_ARGS__); } while (0)
static const char *names[] = { "find", "rel", "add", "reset", "tick" };
static void one(int u, struct o_ *o) {
    static const int argc[] = { 1, 0, 2, 0, 1 };
    E("%s[\"b\",%d,[\"%s\"", nev ? "," : "", u, names[o->op]);
    if (argc[o->op] > 0) E(",%d", o->a);
    if (argc[o->op] > 1) E(",%d", o->b);
    E("]]");
    jmp_buf jb; volatile int res = -1000; F[u].patient = 1; F[u].merged = 0;
    if (handlebars_setjmp_ex(uctx[u], &jb)) { res = -100 - (int) handlebars_error_num(uctx[u]); uctx[u]->e->num = 0; uctx[u]->e->msg = NULL; }
    else switch (o->op) {
        case 0: { struct handlebars_module *m = handlebars_cache_find(uc[u], keys[u][o->a]);
            if (m) { res = which(m); if (nheld[u] < 64) { held[u][nheld[u]].m = m; held[u][nheld[u]].k = o->a; held[u][nheld[u]++].p = res; } } break; }
        case 1: if (nheld[u]) { nheld[u]--; if (which(held[u][nheld[u]].m) != held[u][nheld[u]].p) res = -50; handlebars_cache_release(uc[u], keys[u][held[u][nheld[u]].k], held[u][nheld[u]].m); } break;
        case 2: mine[u][o->b]->ts = now; handlebars_cache_add(uc[u], keys[u][o->a], mine[u][o->b]); break;
        case 3: handlebars_cache_reset(uc[u]); break;
        case 4: now += o->a; break;
    }
    uctx[u]->e->jmp = NULL;
    if (res == -1000) E(",[\"e\",%d,[]]", u); else E(",[\"e\",%d,[%d]]", u, res);
}
static void quiet(void) {
    for (int u = 1; u <= nf; u++) for (int i = 0; i < nheld[u]; i++) if (which(held[u][i].m) != held[u][i].p) E(",[\"torn\",%d]", u);
    struct handlebars_cache_stat s = handlebars_cache_stat(cache);
    E(",[\"q\",%ld,%ld,%ld,%ld,%ld]", (long) s.current_entries, (long) s.hits, (long) s.misses, (long) s.refcount, (long) s.collisions);
}
static void body(int u) { for (int i = 0; i < nops[u]; i++) one(u, &ops[u][i]); F[u].done = 1; yield_(0); }
static void crashed(int sig) {
    char b[4096]; int n = sprintf(b, "signal %d in schedule [", sig);
    for (int i = 0; i < tpos && n < 4000; i++) n += sprintf(b + n, "%d,", trail[i].c);
    n += sprintf(b + n, "]\n"); if (write(2, b, (size_t) n)) {} if (write(2, ev, (size_t) (nev > 3000 ? 3000 : nev))) {} _exit(99);
}
static J *cfg;
static int run1(int fresh_trail) {
    struct handlebars_context *ctx = handlebars_context_ctor(); jmp_buf jb; nev = 0; stuck = diverged = 0; points = 0; nlocks = 0; tpos = 0; spent = 0; active = 0; cur = 0; now = 1000;
    if (fresh_trail) ntrail = 0;
    if (handlebars_setjmp_ex(ctx, &jb)) { E("[\"err\"]"); handlebars_context_dtor(ctx); return 0; }
    cache = handlebars_cache_mmap_ctor(ctx, (size_t) jint(cfg, "size", 12288), (size_t) jint(cfg, "entries", 1)); cache->max_age = jint(cfg, "age", -1);
    ctx->e->jmp = NULL;
    data_from = shm + 4096 + (((size_t) jint(cfg, "entries", 1) * 8 + 4095) / 4096) * 4096;
    for (int u = 0; u <= nf; u++) {
        uctx[u] = handlebars_context_ctor(); uc[u] = malloc(sizeof *uc[u]); memcpy(uc[u], cache, sizeof *cache); HBSCTX(uc[u])->e = NULL; handlebars_context_bind(uctx[u], HBSCTX(uc[u])); nheld[u] = 0;
        F[u].done = F[u].patient = F[u].merged = 0; F[u].steps = 0; F[u].wants = NULL;
    }
    /* before: done by user 1 */
    for (int i = 0; i < nops[0]; i++) one(1, &ops[0][i]);
    for (int u = 1; u <= nf; u++) {
        getcontext(&F[u].c); if (!F[u].stack) F[u].stack = malloc(1 << 18);
        F[u].c.uc_stack.ss_sp = F[u].stack; F[u].c.uc_stack.ss_size = 1 << 18; F[u].c.uc_link = NULL;
        makecontext(&F[u].c, (void (*)(void)) body, 1, u);
    }
    active = 1;
    int k = choose(nf); go(k + 1);
    active = 0; cur = 0;
    if (stuck) E(",[\"stuck\",0]");
    else {
        quiet();
        for (int u = 1; u <= nf; u++) while (nheld[u]) one(u, &(struct o_){1, 0, 0});
        for (int i = 0; i < nkey; i++) { one(1, &(struct o_){0, i, 0}); one(1, &(struct o_){1, 0, 0}); if (!nheld[1]) continue; }
        one(1, &(struct o_){3, 0, 0});
        for (int i = 0; i < nkey; i++) one(1, &(struct o_){0, i, 0});
        quiet();
    }
    for (int u = 0; u <= nf; u++) { handlebars_context_dtor(uctx[u]); free(uc[u]); }
    handlebars_context_dtor(ctx);
    return 1;
}
#define NH (1 << 16)
static uint64_t seen[NH];
static void parse_ops(J *a, int u) {
    nops[u] = 0;
    for (size_t i = 0; i < jlen(a) && i < 64; i++) {
        J *o = jat(a, i); const char *n = json_object_get_string(jat(o, 0)); struct o_ *x = &ops[u][nops[u]++];
        for (x->op = 0; x->op < 5 && strcmp(names[x->op], n); x->op++); if (x->op == 5) { fprintf(stderr, "driver: bad op %s\n", n); exit(3); }
        x->a = json_object_get_int(jat(o, 1)); x->b = json_object_get_int(jat(o, 2));
    }
}
static void op_shm(J *q) {
    cfg = q; setup(q); J *pr = jget(q, "progs"), *fix = jget(q, "schedule");
    nf = (int) jlen(pr); parse_ops(jget(q, "init"), 0); for (int u = 1; u <= nf; u++) parse_ops(jat(pr, (size_t) u - 1), u);
    budget = (int) jint(q, "preempt", 2); limit = 400000; long max = jint(q, "max", 100000), n = 0, nh = 0, kept = 0, keep = jint(q, "keep", 4000), pts = 0, div = 0; int complete = 1;
    memset(seen, 0, sizeof seen); ntrail = 0;
    if (fix) { for (size_t i = 0; i < jlen(fix); i++) { trail[i].c = json_object_get_int(jat(fix, i)); trail[i].n = -1; } ntrail = (int) jlen(fix); max = 1; }
    o_s("{\"h\":[");
    for (;;) {
        run1(0); n++; pts += points; div += diverged && !fix;
        uint64_t h = 1469598103934665603ull; for (int i = 0; i < nev; i++) h = (h ^ (unsigned char) ev[i]) * 1099511628211ull;
        if (!h) h = 1;
        size_t i = h & (NH - 1); while (seen[i] && seen[i] != h) i = (i + 1) & (NH - 1);
        if (!seen[i]) {
            seen[i] = h;
            ev[nev] = 0;
            /* the first ones, a part of the others, and what is wrong in itself */
            if (kept < keep / 2 || (kept < keep && h % 5 == 0) || (kept < keep + 50 && (strstr(ev, "torn") || strstr(ev, "stuck") || strstr(ev, "[-")))) { if (kept++) o_s(","); o_s("["); o_s("["); o_raw(ev, (size_t) nev); o_s("],["); for (int k = 0; k < tpos; k++) o_f("%s%d", k ? "," : "", trail[k].c); o_s("]]"); }
            if (++nh > NH / 2) { complete = 0; break; }
        }
        ntrail = tpos;
        while (ntrail && trail[ntrail - 1].c + 1 >= trail[ntrail - 1].n) ntrail--;
        if (!ntrail) break;
        trail[ntrail - 1].c++;
        if (n >= max) { complete = 0; break; }
    }
    o_f("],\"schedules\":%ld,\"histories\":%ld,\"points\":%ld,\"diverged\":%ld,\"complete\":%s}", n, nh, pts, div, complete ? "true" : "false");
    cleanup();
}
/* what the specification is told: sizes of entries, places in the table */
static void op_facts(J *q) {
    cfg = q; setup(q); o_s("{\"need\":[");
    for (int i = 0; i < nkey; i++) {
        o_f("%s[", i ? "," : "");
        for (int j = 0; j < nprog; j++) {
            struct handlebars_context *ctx = handlebars_context_ctor();
            struct handlebars_cache *c = handlebars_cache_mmap_ctor(ctx, 262144, 1); mine[0][j]->ts = 0;
            handlebars_cache_add(c, keys[0][i], mine[0][j]);
            o_f("%s%ld", j ? "," : "", (long) handlebars_cache_stat(c).current_data_size);
            handlebars_context_dtor(ctx);
        }
        o_s("]");
    }
    o_s("],\"ksz\":["); for (int i = 0; i < nkey; i++) o_f("%s%ld", i ? "," : "", (long) HBS_STR_SIZE(hbs_str_len(keys[0][i])));
    o_s("],\"sz\":["); for (int i = 0; i < nprog; i++) o_f("%s%ld", i ? "," : "", (long) prog[i]->size);
    o_s("],\"hash\":["); for (int i = 0; i < nkey; i++) o_f("%s%lu", i ? "," : "", (unsigned long) hbs_str_hash(keys[0][i]));
    o_s("]}"); cleanup();
}
int main(void) {
    static const struct { const char *name; void (*fn)(J *); } tab[] = { {"shm", op_shm}, {"facts", op_facts}, {NULL, NULL} };
    char *line = NULL; size_t cap = 0; ssize_t n;
    arena = __real_mmap(NULL, arena_size + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); now = 1000;
    stack_t ss = { .ss_sp = malloc(65536), .ss_size = 65536 }; sigaltstack(&ss, NULL);
    struct sigaction sa = { .sa_handler = crashed, .sa_flags = SA_ONSTACK }; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGALRM, &sa, NULL);
    o_init(); ocap = 65536; obuf = malloc(ocap);
    struct json_tokener *tok = json_tokener_new_ex(2000);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        json_tokener_reset(tok);
        J *q = json_tokener_parse_ex(tok, line, (int) n);
        if (!q) { fprintf(stderr, "driver: bad request\n"); return 3; }
        const char *op = jstr(q, "op"); int i;
        alarm((unsigned) jint(q, "alarm", 30));
        for (i = 0; tab[i].name; i++) if (!strcmp(tab[i].name, op)) { tab[i].fn(q); break; }
        if (!tab[i].name) { fprintf(stderr, "driver: bad op %s\n", op); return 3; }
        alarm(0);
        o_flush();
        json_object_put(q);
    }
    return 0;
}
