/* Shared by the drivers: JSON decoding of the tagged values of the TLA+ specification, hex output, test helpers. */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "config.h"
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
#include <json.h>
#include <talloc.h>

#define HANDLEBARS_AST_PRIVATE
#define HANDLEBARS_AST_LIST_PRIVATE
#define HANDLEBARS_COMPILER_PRIVATE
#define HANDLEBARS_OPCODES_PRIVATE
#define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
#include "handlebars.h"
#include "handlebars_memory.h"
#include "handlebars_private.h"
#include "handlebars_value_private.h"
#include "handlebars_ast.h"
#include "handlebars_ast_list.h"
#include "handlebars_ast_printer.h"
#include "handlebars_cache.h"
#include "handlebars_closure.h"
#include "handlebars_compiler.h"
#include "handlebars_delimiters.h"
#include "handlebars_helpers.h"
#include "handlebars_json.h"
#include "handlebars_map.h"
#include "handlebars_module_printer.h"
#include "handlebars_opcode_printer.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_opcodes.h"
#include "handlebars_parser.h"
#include "handlebars_partial_loader.h"
#include "handlebars_ptr.h"
#include "handlebars_stack.h"
#include "handlebars_string.h"
#include "handlebars_token.h"
#include "handlebars_value.h"
#include "handlebars_value_handlers.h"
#include "handlebars_vm.h"
#include "handlebars_yaml.h"

typedef struct json_object J;

/* ---- output ---- */
static char *obuf; static size_t olen, ocap;
static void o_raw(const char *s, size_t n) {
    if (olen + n + 1 > ocap) { ocap = (olen + n + 1) * 2; obuf = realloc(obuf, ocap); }
    memcpy(obuf + olen, s, n); olen += n; obuf[olen] = 0;
}
static void o_s(const char *s) { o_raw(s, strlen(s)); }
static void o_f(const char *fmt, ...) {
    char tmp[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap);
    o_raw(tmp, n < (int) sizeof tmp ? (size_t) n : sizeof tmp - 1);
}
static void o_hex(const char *p, size_t n) {
    static const char d[] = "0123456789abcdef";
    o_raw("\"", 1);
    for (size_t i = 0; i < n; i++) { char c[2] = { d[((unsigned char) p[i]) >> 4], d[((unsigned char) p[i]) & 15] }; o_raw(c, 2); }
    o_raw("\"", 1);
}
static void o_bytes(const char *p, size_t n) {
    o_raw("[", 1);
    for (size_t i = 0; i < n; i++) { char b[8]; int k = snprintf(b, sizeof b, i ? ",%d" : "%d", (unsigned char) p[i]); o_raw(b, (size_t) k); }
    o_raw("]", 1);
}
static void o_hstr(struct handlebars_string *s) { if (s) o_bytes(hbs_str_val(s), hbs_str_len(s)); else o_s("null"); }
static void o_jstr(const char *s) { J *j = json_object_new_string(s); o_s(json_object_to_json_string(j)); json_object_put(j); }
/* answers go to the original stdout; what the library itself prints on fd 1 is caught in a memory file and reported */
static FILE *o_resp; static int o_cap = -1;
static void o_init(void) {
    int fd = dup(1); o_resp = fdopen(fd, "w");
    o_cap = memfd_create("stdout", 0); dup2(o_cap, 1);
}
static void o_flush(void) {
    fflush(stdout);
    off_t n = lseek(1, 0, SEEK_CUR);
    if (n > 0 && olen > 1 && obuf[olen - 1] == '}') {
        olen--; o_f(",\"stdout\":%ld}", (long) n);
    }
    if (n > 0) { if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); }
    fwrite(obuf, 1, olen, o_resp); fputc('\n', o_resp); fflush(o_resp); olen = 0;
}

/* ---- json access ---- */
static J *jget(J *o, const char *k) { J *r = NULL; if (o && json_object_is_type(o, json_type_object)) json_object_object_get_ex(o, k, &r); return r; }
static J *jat(J *a, size_t i) { return json_object_array_get_idx(a, i); }
static size_t jlen(J *a) { return a ? json_object_array_length(a) : 0; }
static long jint(J *o, const char *k, long dflt) { J *r = jget(o, k); return r ? (long) json_object_get_int64(r) : dflt; }
static const char *jstr(J *o, const char *k) { J *r = jget(o, k); return r ? json_object_get_string(r) : NULL; }

/* bytes: an array of ints */
static char *jbytes(J *a, size_t *n) {
    *n = jlen(a); char *p = malloc(*n + 1);
    for (size_t i = 0; i < *n; i++) p[i] = (char) json_object_get_int(jat(a, i));
    p[*n] = 0; return p;
}
static struct handlebars_string *jhstr(struct handlebars_context *ctx, J *a) {
    size_t n; char *p = jbytes(a, &n); struct handlebars_string *s = handlebars_string_ctor(ctx, p, n); free(p); return s;
}

/* ---- test helpers ---- */
static struct handlebars_string *show(struct handlebars_context *ctx, struct handlebars_string *s, struct handlebars_value *v) {
    switch (handlebars_value_get_type(v)) {
        case HANDLEBARS_VALUE_TYPE_NULL: return handlebars_string_append(ctx, s, HBS_STRL("n"));
        case HANDLEBARS_VALUE_TYPE_TRUE: return handlebars_string_append(ctx, s, HBS_STRL("t"));
        case HANDLEBARS_VALUE_TYPE_FALSE: return handlebars_string_append(ctx, s, HBS_STRL("f"));
        case HANDLEBARS_VALUE_TYPE_INTEGER: return handlebars_string_asprintf_append(ctx, s, "i%ld", handlebars_value_get_intval(v));
        case HANDLEBARS_VALUE_TYPE_FLOAT: return handlebars_string_asprintf_append(ctx, s, "d%.15g", handlebars_value_get_floatval(v));
        case HANDLEBARS_VALUE_TYPE_STRING:
            s = handlebars_string_append(ctx, s, (handlebars_value_get_flags(v) & HANDLEBARS_VALUE_FLAG_SAFE_STRING) ? "S$" : "s$", 2);
            s = handlebars_string_append(ctx, s, handlebars_value_get_strval(v), handlebars_value_get_strlen(v));
            return handlebars_string_append(ctx, s, HBS_STRL("$"));
        case HANDLEBARS_VALUE_TYPE_ARRAY: {
            int first = 1;
            s = handlebars_string_append(ctx, s, HBS_STRL("["));
            HANDLEBARS_VALUE_FOREACH(v, child) {
                if (!first) s = handlebars_string_append(ctx, s, HBS_STRL(","));
                first = 0; s = show(ctx, s, child);
            } HANDLEBARS_VALUE_FOREACH_END();
            return handlebars_string_append(ctx, s, HBS_STRL("]"));
        }
        case HANDLEBARS_VALUE_TYPE_MAP: {
            int first = 1;
            s = handlebars_string_append(ctx, s, HBS_STRL("{"));
            HANDLEBARS_VALUE_FOREACH_KV(v, k, child) {
                if (!first) s = handlebars_string_append(ctx, s, HBS_STRL(","));
                first = 0;
                s = handlebars_string_append(ctx, s, hbs_str_val(k), hbs_str_len(k));
                s = handlebars_string_append(ctx, s, HBS_STRL(":"));
                s = show(ctx, s, child);
            } HANDLEBARS_VALUE_FOREACH_END();
            return handlebars_string_append(ctx, s, HBS_STRL("}"));
        }
        case HANDLEBARS_VALUE_TYPE_HELPER: case HANDLEBARS_VALUE_TYPE_CLOSURE: return handlebars_string_append(ctx, s, HBS_STRL("F"));
        default: return handlebars_string_append(ctx, s, HBS_STRL("?"));
    }
}
#define HCTX HBSCTX(vm)
static struct handlebars_string *show_args(int argc, struct handlebars_value *argv, struct handlebars_options *options, struct handlebars_vm *vm, const char *name) {
    struct handlebars_string *s = handlebars_string_ctor(HCTX, name, strlen(name));
    s = handlebars_string_append(HCTX, s, HBS_STRL("("));
    for (int i = 0; i < argc; i++) {
        if (i) s = handlebars_string_append(HCTX, s, HBS_STRL(","));
        s = show(HCTX, s, HANDLEBARS_ARG_AT(i));
    }
    s = handlebars_string_append(HCTX, s, HBS_STRL(";"));
    if (options->hash) s = show(HCTX, s, options->hash);
    return handlebars_string_append(HCTX, s, HBS_STRL(")"));
}
/* the calls there were, as those called saw them */
static int r_on, r_n; static char *r_buf; static size_t r_len, r_cap;
static void rec(const char *f, HANDLEBARS_FUNCTION_ARGS);
/* echo: a string listing arguments and hash */
static struct handlebars_value *h_echo(HANDLEBARS_HELPER_ARGS) { rec("echo", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    handlebars_value_str(rv, show_args(argc, argv, options, vm, "echo")); return rv;
}
/* opts: name, scope and which programs there are */
static struct handlebars_value *h_opts(HANDLEBARS_HELPER_ARGS) { rec("opts", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    struct handlebars_string *s = handlebars_string_ctor(HCTX, HBS_STRL("opts["));
    if (options->name) s = handlebars_string_append(HCTX, s, hbs_str_val(options->name), hbs_str_len(options->name));
    s = handlebars_string_asprintf_append(HCTX, s, "|%d%d|", options->program >= 0, options->inverse >= 0);
    if (options->scope) s = show(HCTX, s, options->scope);
    s = handlebars_string_append(HCTX, s, HBS_STRL("]"));
    handlebars_value_str(rv, s); return rv;
}
/* wrap: block helper: runs both sides in the current scope */
static struct handlebars_value *h_wrap(HANDLEBARS_HELPER_ARGS) { rec("wrap", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    struct handlebars_string *s = handlebars_string_ctor(HCTX, HBS_STRL("<"));
    s = handlebars_string_append_str(HCTX, s, handlebars_vm_execute_program(vm, options->program, options->scope));
    s = handlebars_string_append(HCTX, s, HBS_STRL("|"));
    s = handlebars_string_append_str(HCTX, s, handlebars_vm_execute_program(vm, options->inverse, options->scope));
    s = handlebars_string_append(HCTX, s, HBS_STRL(">"));
    handlebars_value_str(rv, s); return rv;
}
/* frame: block helper: argv[0] is the context, @v = argv[1], block params = argv */
static struct handlebars_value *h_frame(HANDLEBARS_HELPER_ARGS) { rec("frame", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    HANDLEBARS_VALUE_DECL(data); HANDLEBARS_VALUE_DECL(bp);
    if (argc < 2) handlebars_throw(HCTX, HANDLEBARS_ERROR, "frame needs two arguments");
    struct handlebars_map *m = handlebars_map_ctor(HCTX, 8);
    if (handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP) {
        HANDLEBARS_VALUE_FOREACH_KV(options->data, k, child) { m = handlebars_map_update(m, k, child); } HANDLEBARS_VALUE_FOREACH_END();
    }
    m = handlebars_map_str_update(m, HBS_STRL("v"), HANDLEBARS_ARG_AT(1));
    handlebars_value_map(data, m);
    handlebars_value_array(bp, handlebars_stack_ctor(HCTX, 2));
    handlebars_value_array_push(bp, HANDLEBARS_ARG_AT(0)); handlebars_value_array_push(bp, HANDLEBARS_ARG_AT(1));
    struct handlebars_string *s = handlebars_vm_execute_program_ex(vm, options->program, HANDLEBARS_ARG_AT(0), data, bp);
    handlebars_value_str(rv, s);
    HANDLEBARS_VALUE_UNDECL(bp); HANDLEBARS_VALUE_UNDECL(data);
    return rv;
}
static struct handlebars_value *h_safe(HANDLEBARS_HELPER_ARGS) { rec("safe", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    if (argc < 1) handlebars_throw(HCTX, HANDLEBARS_ERROR, "safe needs an argument");
    handlebars_value_str(rv, handlebars_value_to_string(HANDLEBARS_ARG_AT(0), HCTX));
    handlebars_value_set_flag(rv, HANDLEBARS_VALUE_FLAG_SAFE_STRING); return rv;
}
static struct handlebars_value *h_ident(HANDLEBARS_HELPER_ARGS) { rec("ident", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    if (argc < 1) handlebars_throw(HCTX, HANDLEBARS_ERROR, "ident needs an argument");
    handlebars_value_value(rv, HANDLEBARS_ARG_AT(0)); return rv;
}
static struct handlebars_value *h_nul(HANDLEBARS_HELPER_ARGS) { rec("nul", HANDLEBARS_FUNCTION_ARGS_PASSTHRU); return rv; }
static struct handlebars_value *h_list(HANDLEBARS_HELPER_ARGS) { rec("list", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    handlebars_value_array(rv, handlebars_stack_ctor(HCTX, argc));
    for (int i = 0; i < argc; i++) handlebars_value_array_push(rv, HANDLEBARS_ARG_AT(i));
    return rv;
}
static struct handlebars_value *h_obj(HANDLEBARS_HELPER_ARGS) { rec("obj", HANDLEBARS_FUNCTION_ARGS_PASSTHRU); if (options->hash) handlebars_value_value(rv, options->hash); return rv; }
static struct handlebars_value *h_fail(HANDLEBARS_HELPER_ARGS) { rec("fail", HANDLEBARS_FUNCTION_ARGS_PASSTHRU); handlebars_throw(HCTX, HANDLEBARS_ERROR, "fail helper"); return rv; }
/* lambda: a function in the data: what it is called with */
static struct handlebars_value *h_lam(HANDLEBARS_HELPER_ARGS) { rec("lam", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    struct handlebars_string *s = handlebars_string_ctor(HCTX, HBS_STRL("lam("));
    for (int i = 0; i < argc; i++) { if (i) s = handlebars_string_append(HCTX, s, HBS_STRL(",")); s = show(HCTX, s, HANDLEBARS_ARG_AT(i)); }
    s = handlebars_string_append(HCTX, s, HBS_STRL(")"));
    handlebars_value_str(rv, s); return rv;
}
static struct handlebars_value *h_lfalse(HANDLEBARS_HELPER_ARGS) { rec("lfalse", HANDLEBARS_FUNCTION_ARGS_PASSTHRU); handlebars_value_boolean(rv, false); return rv; }
static struct handlebars_value *h_larr(HANDLEBARS_HELPER_ARGS) { rec("larr", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    HANDLEBARS_VALUE_DECL(x);
    handlebars_value_array(rv, handlebars_stack_ctor(HCTX, 2));
    handlebars_value_integer(x, 7); handlebars_value_array_push(rv, x);
    handlebars_value_integer(x, 8); handlebars_value_array_push(rv, x);
    HANDLEBARS_VALUE_UNDECL(x);
    return rv;
}
/* mustache lambdas: text -> template */
static struct handlebars_value *h_mlam(HANDLEBARS_HELPER_ARGS) { rec("mlam", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    struct handlebars_string *s = handlebars_string_ctor(HCTX, HBS_STRL("<"));
    if (argc > 0) { struct handlebars_string *t = handlebars_value_to_string(HANDLEBARS_ARG_AT(0), HCTX); s = handlebars_string_append(HCTX, s, HBS_STR_STRL(t)); }
    s = handlebars_string_append(HCTX, s, HBS_STRL("{{v}}>"));
    handlebars_value_str(rv, s); return rv;
}
/* rlam: the template in the data member rt */
static struct handlebars_value *h_rlam(HANDLEBARS_HELPER_ARGS) { rec("rlam", HANDLEBARS_FUNCTION_ARGS_PASSTHRU);
    HANDLEBARS_VALUE_DECL(tmp);
    struct handlebars_value *f = options->data && handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP ? handlebars_value_map_str_find(options->data, HBS_STRL("rt"), tmp) : NULL;
    if (f) handlebars_value_str(rv, handlebars_value_to_string(f, HCTX));
    HANDLEBARS_VALUE_UNDECL(tmp);
    return rv;
}
/* garbage collection or reset of the cache, or the passing of time, in the middle of a rendering; they render nothing */
static struct handlebars_cache *t_cache; static void (*t_tick)(long);
static struct handlebars_value *h_cgc(HANDLEBARS_HELPER_ARGS) { rec("cgc", HANDLEBARS_FUNCTION_ARGS_PASSTHRU); if (t_cache) handlebars_cache_gc(t_cache); return rv; }
static struct handlebars_value *h_creset(HANDLEBARS_HELPER_ARGS) { rec("creset", HANDLEBARS_FUNCTION_ARGS_PASSTHRU); if (t_cache) handlebars_cache_reset(t_cache); return rv; }
static struct handlebars_value *h_ctick(HANDLEBARS_HELPER_ARGS) { rec("ctick", HANDLEBARS_FUNCTION_ARGS_PASSTHRU); if (t_tick) t_tick(5); return rv; }
static const struct { const char *name; handlebars_helper_func fn; } test_helpers[] = {
    {"cgc", h_cgc}, {"creset", h_creset}, {"ctick", h_ctick},
    {"echo", h_echo}, {"opts", h_opts}, {"wrap", h_wrap}, {"frame", h_frame}, {"safe", h_safe}, {"ident", h_ident},
    {"nul", h_nul}, {"list", h_list}, {"obj", h_obj}, {"fail", h_fail}, {"lam", h_lam}, {"lfalse", h_lfalse}, {"larr", h_larr}, {"mlam", h_mlam}, {"rlam", h_rlam}, {NULL, NULL}
};
static handlebars_helper_func find_helper(const char *name) {
    for (int i = 0; test_helpers[i].name; i++) if (!strcmp(test_helpers[i].name, name)) return test_helpers[i].fn;
    fprintf(stderr, "driver: no helper %s\n", name); exit(3);
}

/* ---- values ---- */
static void jvalue(struct handlebars_context *ctx, J *j, struct handlebars_value *v) {
    const char *t = json_object_get_string(jat(j, 0));
    if (!strcmp(t, "n")) handlebars_value_null(v);
    else if (!strcmp(t, "b")) handlebars_value_boolean(v, json_object_get_boolean(jat(j, 1)));
    else if (!strcmp(t, "i")) handlebars_value_integer(v, (long) json_object_get_int64(jat(j, 1)));
    else if (!strcmp(t, "I")) handlebars_value_integer(v, strtol(json_object_get_string(jat(j, 1)), NULL, 10));
    else if (!strcmp(t, "d")) handlebars_value_float(v, strtod(json_object_get_string(jat(j, 1)), NULL));
    else if (!strcmp(t, "s") || !strcmp(t, "ss")) {
        handlebars_value_str(v, jhstr(ctx, jat(j, 1)));
        if (t[1]) handlebars_value_set_flag(v, HANDLEBARS_VALUE_FLAG_SAFE_STRING);
    } else if (!strcmp(t, "a")) {
        J *items = jat(j, 2); size_t n = jlen(items);
        handlebars_value_array(v, handlebars_stack_ctor(ctx, n));
        for (size_t i = 0; i < n; i++) {
            HANDLEBARS_VALUE_DECL(c); jvalue(ctx, jat(items, i), c); handlebars_value_array_push(v, c); HANDLEBARS_VALUE_UNDECL(c);
        }
    } else if (!strcmp(t, "m")) {
        J *items = jat(j, 2); size_t n = jlen(items);
        handlebars_value_map(v, handlebars_map_ctor(ctx, n));
        for (size_t i = 0; i < n; i++) {
            HANDLEBARS_VALUE_DECL(c); jvalue(ctx, jat(jat(items, i), 1), c);
            handlebars_value_map_update(v, jhstr(ctx, jat(jat(items, i), 0)), c); HANDLEBARS_VALUE_UNDECL(c);
        }
    } else if (!strcmp(t, "f")) {
        handlebars_value_helper(v, find_helper(json_object_get_string(jat(j, 1))));
    } else { fprintf(stderr, "driver: bad value %s\n", json_object_to_json_string(j)); exit(3); }
}
static void o_int(long n) { if (n == (int) n) o_f("[\"i\",%ld]", n); else o_f("[\"I\",\"%ld\"]", n); }
/* dump of a value in the tagged encoding (strings in hex) */
static void o_value(struct handlebars_context *ctx, struct handlebars_value *v) {
    switch (handlebars_value_get_type(v)) {
        case HANDLEBARS_VALUE_TYPE_NULL: o_s("[\"n\"]"); break;
        case HANDLEBARS_VALUE_TYPE_TRUE: o_s("[\"b\",true]"); break;
        case HANDLEBARS_VALUE_TYPE_FALSE: o_s("[\"b\",false]"); break;
        case HANDLEBARS_VALUE_TYPE_INTEGER: o_int(handlebars_value_get_intval(v)); break;
        case HANDLEBARS_VALUE_TYPE_FLOAT: o_f("[\"d\",\"%.17g\"]", handlebars_value_get_floatval(v)); break;
        case HANDLEBARS_VALUE_TYPE_STRING:
            o_s((handlebars_value_get_flags(v) & 1) ? "[\"ss\"," : "[\"s\","); o_bytes(handlebars_value_get_strval(v), handlebars_value_get_strlen(v)); o_s("]"); break;
        case HANDLEBARS_VALUE_TYPE_ARRAY: { int f = 1; o_s("[\"a\",[");
            HANDLEBARS_VALUE_FOREACH(v, c) { if (!f) o_s(","); f = 0; o_value(ctx, c); } HANDLEBARS_VALUE_FOREACH_END(); o_s("]]"); break; }
        case HANDLEBARS_VALUE_TYPE_MAP: { int f = 1; o_s("[\"m\",[");
            HANDLEBARS_VALUE_FOREACH_KV(v, k, c) { if (!f) o_s(","); f = 0; o_s("["); o_hstr(k); o_s(","); o_value(ctx, c); o_s("]"); } HANDLEBARS_VALUE_FOREACH_END(); o_s("]]"); break; }
        default: o_s("[\"f\"]"); break;
    }
}
static void rec(const char *f, HANDLEBARS_FUNCTION_ARGS) {
    if (!r_on || r_n >= 40) return;
    char *b = obuf; size_t l = olen, c = ocap;
    obuf = r_buf; olen = r_len; ocap = r_cap;
    o_f("%s[\"%s\",", r_n++ ? "," : "", f);
    if (options->name) o_hstr(options->name); else o_s("[]");
    o_s(",[");
    for (int i = 0; i < argc; i++) { if (i) o_s(","); o_value(HCTX, HANDLEBARS_ARG_AT(i)); }
    o_s("],");
    if (options->hash) o_value(HCTX, options->hash); else o_s("[\"n\"]");
    o_f(",%s,%s]", options->program >= 0 ? "true" : "false", options->inverse >= 0 ? "true" : "false");
    r_buf = obuf; r_len = olen; r_cap = ocap;
    obuf = b; olen = l; ocap = c;
}
static struct handlebars_value *rec_log(HANDLEBARS_FUNCTION_ARGS) { rec("log", HANDLEBARS_FUNCTION_ARGS_PASSTHRU); return rv; }
static void __attribute__((unused)) r_start(struct handlebars_vm *vm) { r_on = 1; r_n = 0; r_len = 0; handlebars_vm_set_logger(vm, rec_log, NULL); }
static void __attribute__((unused)) o_rec(void) { if (r_on) { o_s(",\"log\":["); if (r_len) o_raw(r_buf, r_len); o_s("]"); } r_on = 0; }
static void o_err(struct handlebars_context *ctx) {
    const char *m = handlebars_error_msg(ctx);
    struct handlebars_locinfo l = handlebars_error_loc(ctx);
    o_f("\"err\":%d,\"msg\":", (int) handlebars_error_num(ctx));
    if (m) o_hex(m, strlen(m)); else o_s("null");
    o_f(",\"loc\":[%d,%d,%d,%d]", l.first_line, l.first_column, l.last_line, l.last_column);
}
#endif

/* Allocations that fail: the library allocates through these pointers */
static long a_n, a_fail; static int a_hit, a_off;
static int a_now(void) { if (a_fail <= 0 || a_off) return 0; if (++a_n == a_fail) { a_hit = 1; return 1; } return 0; }
static void *f_array(const void *c, size_t e, unsigned n, const char *m) { return a_now() ? NULL : _talloc_array(c, e, n, m); }
static void *f_named(const void *c, size_t z, const char *m) { return a_now() ? NULL : talloc_named_const(c, z, m); }
static void *f_realloc(const void *c, void *p, size_t e, unsigned n, const char *m) { return a_now() ? NULL : _talloc_realloc_array(c, p, e, n, m); }
static char *f_strdup(const void *c, const char *p) { return a_now() ? NULL : talloc_strdup(c, p); }
static char *f_strndup(const void *c, const char *p, size_t n) { return a_now() ? NULL : talloc_strndup(c, p, n); }
static char *f_sda(char *p, const char *a) { return a_now() ? NULL : talloc_strdup_append(p, a); }
static char *f_sdab(char *p, const char *a) { return a_now() ? NULL : talloc_strdup_append_buffer(p, a); }
static char *f_sndab(char *p, const char *a, size_t n) { return a_now() ? NULL : talloc_strndup_append_buffer(p, a, n); }
static void *f_zero(const void *c, size_t z, const char *m) { return a_now() ? NULL : _talloc_zero(c, z, m); }
static char *f_aspr(const void *c, const char *f, ...) { if (a_now()) return NULL; va_list ap; va_start(ap, f); char *r = talloc_vasprintf(c, f, ap); va_end(ap); return r; }
static char *f_aspra(char *p, const char *f, ...) { if (a_now()) return NULL; va_list ap; va_start(ap, f); char *r = talloc_vasprintf_append(p, f, ap); va_end(ap); return r; }
static char *f_asprab(char *p, const char *f, ...) { if (a_now()) return NULL; va_list ap; va_start(ap, f); char *r = talloc_vasprintf_append_buffer(p, f, ap); va_end(ap); return r; }
static void __attribute__((unused)) a_hooks(void) {
    _handlebars_talloc_array = f_array; _handlebars_talloc_named_const = f_named; _handlebars_talloc_realloc_array = f_realloc; _handlebars_talloc_strdup = f_strdup;
    _handlebars_talloc_strndup = f_strndup; _handlebars_talloc_strdup_append = f_sda; _handlebars_talloc_strdup_append_buffer = f_sdab;
    _handlebars_talloc_strndup_append_buffer = f_sndab; _handlebars_talloc_zero = f_zero; _handlebars_talloc_asprintf = f_aspr;
    _handlebars_talloc_asprintf_append = f_aspra; _handlebars_talloc_asprintf_append_buffer = f_asprab;
}
