/* Histories of operations on the three caches of programs, with a clock of the driver's own. */
#include "common.h"
#include "clock.h"
#include <lmdb.h>
#include <sys/wait.h>
#include "handlebars_cache_private.h"

static struct handlebars_context *ctx;

/* the shared memory lies between pages nothing may touch */
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
    if (!(fl & MAP_ANONYMOUS) || !(fl & MAP_SHARED)) return __real_mmap(a, n, prot, fl, fd, o);
    char *p = __real_mmap(NULL, n + 2 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return __real_mmap(p + 65536, n, prot, fl | MAP_FIXED, fd, o);
}

/* the database: death of the process at the n-th call */
static long die_at = -1, calls = 0;
static void at(void) { if (die_at >= 0 && calls++ == die_at) _exit(77); }
int __real_mdb_txn_begin(MDB_env *, MDB_txn *, unsigned, MDB_txn **);
int __real_mdb_txn_commit(MDB_txn *);
int __real_mdb_put(MDB_txn *, MDB_dbi, MDB_val *, MDB_val *, unsigned);
int __real_mdb_get(MDB_txn *, MDB_dbi, MDB_val *, MDB_val *);
int __real_mdb_drop(MDB_txn *, MDB_dbi, int);
int __real_mdb_cursor_del(MDB_cursor *, unsigned);
int __real_mdb_del(MDB_txn *, MDB_dbi, MDB_val *, MDB_val *);
void __real_mdb_txn_abort(MDB_txn *);
int __wrap_mdb_txn_begin(MDB_env *e, MDB_txn *p, unsigned f, MDB_txn **t) { at(); int r = __real_mdb_txn_begin(e, p, f, t); at(); return r; }
int __wrap_mdb_txn_commit(MDB_txn *t) { at(); int r = __real_mdb_txn_commit(t); at(); return r; }
int __wrap_mdb_put(MDB_txn *t, MDB_dbi d, MDB_val *k, MDB_val *v, unsigned f) { at(); int r = __real_mdb_put(t, d, k, v, f); at(); return r; }
int __wrap_mdb_get(MDB_txn *t, MDB_dbi d, MDB_val *k, MDB_val *v) { at(); return __real_mdb_get(t, d, k, v); }
int __wrap_mdb_drop(MDB_txn *t, MDB_dbi d, int x) { at(); int r = __real_mdb_drop(t, d, x); at(); return r; }
int __wrap_mdb_cursor_del(MDB_cursor *c, unsigned f) { at(); int r = __real_mdb_cursor_del(c, f); at(); return r; }
int __wrap_mdb_del(MDB_txn *t, MDB_dbi d, MDB_val *k, MDB_val *v) { at(); int r = __real_mdb_del(t, d, k, v); at(); return r; }
void __wrap_mdb_txn_abort(MDB_txn *t) { at(); __real_mdb_txn_abort(t); at(); }

/* ---- programs ---- */
#define NPROG 64
static int nprog, nkey; static struct handlebars_module *prog[NPROG]; static struct handlebars_string *keys[NPROG];
static struct handlebars_module *norm(struct handlebars_module *m) {
    struct handlebars_module *c = malloc(m->size); memcpy(c, m, m->size);
    handlebars_module_patch_pointers(c); handlebars_module_normalize_pointers(c, NULL);
    c->ts = 0; c->hash = 0; memset(c->header, 0, sizeof c->header); return c;
}
static struct handlebars_module *compile(struct handlebars_string *t) {
    struct handlebars_context *cc = handlebars_context_ctor();
    struct handlebars_parser *p = handlebars_parser_ctor(cc);
    struct handlebars_ast_node *ast = handlebars_parse_ex(p, t, 0);
    struct handlebars_compiler *co = handlebars_compiler_ctor(cc);
    struct handlebars_program *pr = handlebars_compiler_compile_ex(co, ast);
    struct handlebars_module *m = norm(handlebars_program_serialize(cc, pr));
    handlebars_context_dtor(cc); return m;
}
/* a fresh copy of program j, as the compiler would make it now */
static struct handlebars_module *make(int j) {
    struct handlebars_module *m = handlebars_talloc_size(ctx, prog[j]->size);
    talloc_set_type(m, struct handlebars_module);
    memcpy(m, prog[j], prog[j]->size); memcpy(m->header, "HBSCM\0\0", 8); handlebars_module_patch_pointers(m); time(&m->ts); handlebars_module_generate_hash(m); return m;
}
/* which program it is: -1 none of them, -2 not where it says it is */
static int which(struct handlebars_module *m) {
    if (m->addr != m) return -2;
    for (int j = 0; j < nprog; j++) if (m->size == prog[j]->size && m->version == prog[j]->version && m->opcode_count == prog[j]->opcode_count) {
        struct handlebars_module *c = norm(m); int r = memcmp(c, prog[j], c->size); free(c); if (!r) return j;
    }
    return -1;
}
static void setup(J *q) {
    J *k = jget(q, "keys"), *t = jget(q, "tmpls");
    ctx = handlebars_context_ctor(); nkey = (int) jlen(k); nprog = (int) jlen(t);
    for (int i = 0; i < nkey; i++) { keys[i] = jhstr(ctx, jat(k, i)); handlebars_string_addref(keys[i]); }
    for (int i = 0; i < nprog; i++) prog[i] = compile(jhstr(ctx, jat(t, i)));
}
static void cleanup(void) { for (int i = 0; i < nprog; i++) free(prog[i]); handlebars_context_dtor(ctx); }

/* sizes and places the specification is told about */
static void op_facts(J *q) {
    setup(q); o_s("{\"sz\":[");
    for (int i = 0; i < nprog; i++) o_f("%s%ld", i ? "," : "", (long) prog[i]->size);
    o_s("],\"hash\":[");
    for (int i = 0; i < nkey; i++) o_f("%s%lu", i ? "," : "", (unsigned long) hbs_str_hash(keys[i]));
    o_s("],\"ksz\":[");
    for (int i = 0; i < nkey; i++) o_f("%s%ld", i ? "," : "", (long) HBS_STR_SIZE(hbs_str_len(keys[i])));
    o_f("],\"maxkey\":511}"); cleanup();
}

/* two different texts that begin with the given one and have the same hash */
struct hi { uint32_t h; uint32_t i; };
static int hcmp(const void *a, const void *b) { uint32_t x = ((const struct hi *) a)->h, y = ((const struct hi *) b)->h; return x < y ? -1 : x > y; }
static void op_collide(J *q) {
    size_t l; char *pre = jbytes(jget(q, "prefix"), &l); char *buf = malloc(l + 32); memcpy(buf, pre, l);
    size_t n = (size_t) jint(q, "n", 200000), i; struct hi *t = malloc(n * sizeof *t);
    for (i = 0; i < n; i++) {
        int k = sprintf(buf + l, "%zu", i); struct handlebars_context *c = NULL; (void) c;
        t[i].h = (uint32_t) handlebars_string_hash(buf, l + (size_t) k); t[i].i = (uint32_t) i;
    }
    qsort(t, n, sizeof *t, hcmp); o_s("{\"r\":[");
    for (i = 1; i < n; i++) if (t[i].h == t[i - 1].h) { o_f("%u,%u", t[i - 1].i, t[i].i); break; }
    o_s("]}"); free(t); free(buf); free(pre);
}

static struct handlebars_cache *cache; static long p_age, p_size, p_n;
static struct { int k; struct handlebars_module *m; } held[512]; static int nheld;
static const char *path; static J *cfg;
static struct handlebars_cache *open_cache(void) {
    const char *kind = jstr(cfg, "kind");
    struct handlebars_cache *c = !strcmp(kind, "simple") ? handlebars_cache_simple_ctor(ctx)
        : !strcmp(kind, "mmap") ? handlebars_cache_mmap_ctor(ctx, (size_t) jint(cfg, "size", 65536), (size_t) jint(cfg, "entries", 16))
        : handlebars_cache_lmdb_ctor(ctx, path);
    c->max_age = p_age; c->max_size = (size_t) p_size; c->max_entries = (size_t) p_n; return c;
}
static size_t msize(void *p) { struct handlebars_module m; memcpy(&m, p, sizeof m); return m.size; }
static int raw_change(int k, J *o) {
    /* alters the stored record itself, with the database closed */
    MDB_env *e; MDB_txn *t; MDB_dbi d; MDB_cursor *c; MDB_val kv, v; int done = 0;
    const char *how = json_object_get_string(jat(o, 2)); long x = (long) json_object_get_int64(jat(o, 3)), y = (long) json_object_get_int64(jat(o, 4));
    size_t kl = hbs_str_len(keys[k]);
    mdb_env_create(&e); if (mdb_env_open(e, path, MDB_NOSUBDIR, 0644)) { mdb_env_close(e); return 0; }
    __real_mdb_txn_begin(e, NULL, 0, &t); mdb_dbi_open(t, NULL, 0, &d); mdb_cursor_open(t, d, &c);
    while (!mdb_cursor_get(c, &kv, &v, MDB_NEXT)) {
        int mine = (kv.mv_size == kl + 1 && !memcmp(kv.mv_data, hbs_str_val(keys[k]), kl)) ||
(kl > 500 && kv.mv_size != kl + 1 && v.mv_size > kl + sizeof(struct handlebars_module) && msize(v.mv_data) + kl == v.mv_size
                && !memcmp((char *) v.mv_data + v.mv_size - kl, hbs_str_val(keys[k]), kl));
        if (!mine) continue;
        char *n = calloc(1, v.mv_size + 4096); size_t nl = v.mv_size, kn = kv.mv_size; char *kk = malloc(kn); memcpy(kk, kv.mv_data, kn);
        memcpy(n, v.mv_data, nl);
        struct handlebars_module *m = (void *) n; size_t full = nl - (kn == kl + 1 ? 0 : kl);
        if (!strcmp(how, "xor")) n[x % full] ^= (char) y;
        else if (!strcmp(how, "cut")) nl = (size_t) x % nl;
        else if (!strcmp(how, "grow")) nl += (size_t) x;
        else if (!strcmp(how, "size")) m->size = (size_t) x;
        else if (!strcmp(how, "ver")) { m->version ^= 1; handlebars_module_generate_hash(m); }
        else if (!strcmp(how, "ts")) { m->ts = x; handlebars_module_generate_hash(m); }
        MDB_val nk = { kn, kk }, nv = { nl, n };
        done = !__real_mdb_put(t, d, &nk, &nv, 0); free(n); free(kk); break;
    }
    mdb_cursor_close(c); if (done) __real_mdb_txn_commit(t); else __real_mdb_txn_abort(t);
    mdb_env_close(e); return done;
}
static void o_stat(void) {
    struct handlebars_cache_stat s = handlebars_cache_stat(cache);
    o_f("[%ld,%ld,%ld,%ld,%ld,%ld,%ld]", (long) s.current_entries, (long) s.current_size, (long) s.hits, (long) s.misses, (long) s.refcount, (long) s.collisions, (long) s.current_data_size);
}
static void one(J *o) {
    const char *p = json_object_get_string(jat(o, 0));
    int a = (int) json_object_get_int64(jat(o, 1)), b = (int) json_object_get_int64(jat(o, 2));
    if (!strcmp(p, "add")) {
        /* the caller's key does not outlive the call */
        struct handlebars_string *k = handlebars_string_ctor(ctx, hbs_str_val(keys[a]), hbs_str_len(keys[a]));
        handlebars_string_addref(k);
        handlebars_cache_add(cache, k, make(b)); handlebars_string_delref(k); o_s("[]");
    } else if (!strcmp(p, "find")) {
        struct handlebars_module *m = handlebars_cache_find(cache, keys[a]);
        if (!m) o_s("[]");
        else { o_f("[%d]", which(m)); if (nheld < 512) { held[nheld].k = a; held[nheld++].m = m; } }
    } else if (!strcmp(p, "rel")) {
        if (nheld) {
            int i = a % nheld; handlebars_cache_release(cache, keys[held[i].k], held[i].m);
            memmove(held + i, held + i + 1, sizeof(held[0]) * (size_t) (nheld - i - 1)); nheld--;
        }
        o_s("[]");
    } else if (!strcmp(p, "gc")) o_f("[%d]", handlebars_cache_gc(cache));
    else if (!strcmp(p, "reset")) { handlebars_cache_reset(cache); o_s("[]"); }
    else if (!strcmp(p, "tick")) { fake_now += a; o_s("[]"); }
    else if (!strcmp(p, "age")) { cache->max_age = p_age = a; o_s("[]"); }
    else if (!strcmp(p, "size")) { cache->max_size = (size_t) a; p_size = a; o_s("[]"); }
    else if (!strcmp(p, "n")) { cache->max_entries = (size_t) a; p_n = a; o_s("[]"); }
    else if (!strcmp(p, "reopen")) { nheld = 0; handlebars_cache_dtor(cache); cache = open_cache(); o_s("[]"); }
    else if (!strcmp(p, "damage")) { nheld = 0; handlebars_cache_dtor(cache); o_f("[%d]", raw_change(a, o)); cache = open_cache(); }
    else { fprintf(stderr, "driver: bad cache op %s\n", p); exit(3); }
}
/* in another process, which may die at the n-th call of the database */
static void other(J *o, long die) {
    int fd[2]; if (pipe(fd)) exit(3);
    if (die >= 0) { handlebars_cache_dtor(cache); cache = NULL; nheld = 0; }
    pid_t pid = fork();
    if (!pid) {
        close(fd[0]); olen = 0; alarm(20);
        cache = open_cache(); nheld = 0; calls = 0; die_at = die; jmp_buf jb;
        if (handlebars_setjmp_ex(ctx, &jb)) { o_f("[\"err\",%d]", (int) handlebars_error_num(ctx)); } else one(o);
        die_at = -1;
        if (write(fd[1], obuf, olen)) {}
        handlebars_cache_dtor(cache); _exit(0);
    }
    close(fd[1]); char buf[4096]; ssize_t n, m = 0; while ((n = read(fd[0], buf + m, sizeof buf - (size_t) m)) > 0) m += n;
    close(fd[0]); int st; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) o_s("[-77]"); else if (!WIFEXITED(st) || WEXITSTATUS(st) || !m) o_f("[\"bad\",%d]", st); else o_raw(buf, (size_t) m);
    if (die >= 0) cache = open_cache();
}
static void op_cache(J *q) {
    char dir[64] = "/tmp/hbscacheXXXXXX", file[128], lockf[128]; int lmdb = !strcmp(jstr(q, "kind"), "lmdb");
    setup(q); cfg = q; p_age = jint(q, "age", -1); p_size = jint(q, "max_size", 0); p_n = jint(q, "max_n", 0); nheld = 0; die_at = -1;
    long step = jint(q, "step", 0); fake_now = 1000;
    if (lmdb) {
        if (!mkdtemp(dir)) exit(3);
        snprintf(file, sizeof file, "%s/db", dir); snprintf(lockf, sizeof lockf, "%s/db-lock", dir); path = file;
    }
    jmp_buf jb;
    if (handlebars_setjmp_ex(ctx, &jb)) { olen = 0; o_s("{"); o_err(ctx); o_s("}"); goto done; }
    cache = open_cache();
    J *ops = jget(q, "ops"); volatile size_t i; size_t n = jlen(ops);
    o_s("{\"r\":[");
    for (i = 0; i < n; i++) {
        if (i) o_s(",");
        o_s("[");
        size_t mark = olen; J *o = jat(ops, i);
        const char *p = json_object_get_string(jat(o, 0));
        if (handlebars_setjmp_ex(ctx, &jb)) { olen = mark; o_f("[\"err\",%d]", (int) handlebars_error_num(ctx)); ctx->e->num = 0; ctx->e->msg = NULL; }
        else if (!strcmp(p, "other")) other(jat(o, 1), -1);
        else if (!strcmp(p, "die")) other(jat(o, 2), (long) json_object_get_int64(jat(o, 1)));
        else one(o);
        ctx->e->jmp = NULL;
        fake_now += step;
        o_s(","); o_stat(); o_s(",[");
        for (int k = 0; k < nheld; k++) o_f("%s%d", k ? "," : "", which(held[k].m));
        o_s("]]");
    }
    o_s("]}");
    if (cache) handlebars_cache_dtor(cache);
done:
    ctx->e->jmp = NULL;
    cache = NULL; fake_now = -1;
    if (lmdb) { unlink(file); unlink(lockf); rmdir(dir); }
    cleanup();
}
int main(void) {
    static const struct { const char *name; void (*fn)(J *); } ops[] = { {"facts", op_facts}, {"collide", op_collide}, {"cache", op_cache}, {NULL, NULL} };
    char *line = NULL; size_t cap = 0; ssize_t n;
    o_init(); ocap = 65536; obuf = malloc(ocap);
    struct json_tokener *tok = json_tokener_new_ex(2000);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        json_tokener_reset(tok);
        J *q = json_tokener_parse_ex(tok, line, (int) n);
        if (!q) { fprintf(stderr, "driver: bad request\n"); return 3; }
        const char *op = jstr(q, "op"); int i;
        alarm((unsigned) jint(q, "alarm", 30));
        for (i = 0; ops[i].name; i++) if (!strcmp(ops[i].name, op)) { ops[i].fn(q); break; }
        if (!ops[i].name) { fprintf(stderr, "driver: bad op %s\n", op); return 3; }
        alarm(0);
        o_flush();
        json_object_put(q);
    }
    return 0;
}
