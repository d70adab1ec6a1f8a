/* Driver for the data structures: histories of operations on maps, stacks, strings and values */
#include "common.h"
/* faults are not for what the driver itself makes */
static struct handlebars_string *jhstr_(struct handlebars_context *c, J *o) { a_off++; struct handlebars_string *s = jhstr(c, o); a_off--; return s; }
static void jvalue_(struct handlebars_context *c, J *o, struct handlebars_value *v) { a_off++; jvalue(c, o, v); a_off--; }
#define jhstr jhstr_
#define jvalue jvalue_
/* "fail": k -- the k-th allocation of the history is refused */
static void faults(J *q) { a_n = 0; a_hit = 0; a_fail = jint(q, "fail", 0); if (a_fail) a_hooks(); }
static void faults_end(void) { a_fail = 0; o_f("],\"hit\":%d}", a_hit); }

/* a step that fails answers ["err",num]; the state has to be what it was */
static struct handlebars_context *ctx;
static jmp_buf step_buf;
static size_t step_mark;
#define TRY step_mark = olen; if (handlebars_setjmp_ex(ctx, &step_buf)) { olen = step_mark; o_f("[\"err\",%d]", (int) handlebars_error_num(ctx)); ctx->e->num = 0; ctx->e->msg = NULL; } else
static int I(J *o, int i) { return json_object_get_int(jat(o, (size_t) i)); }
static const char *S(J *o, int i) { return json_object_get_string(jat(o, (size_t) i)); }

/* ---- maps ---- */
static int cmp_asc(const struct handlebars_map_kv_pair *a, const struct handlebars_map_kv_pair *b) {
    size_t n = hbs_str_len(a->key), m = hbs_str_len(b->key); int c = memcmp(hbs_str_val(a->key), hbs_str_val(b->key), n < m ? n : m);
    return c ? c : n < m ? -1 : n > m;
}
static int cmp_r(const struct handlebars_map_kv_pair *a, const struct handlebars_map_kv_pair *b, const void *arg) { return *(const int *) arg * cmp_asc(a, b); }
static int cmp_val(const struct handlebars_map_kv_pair *a, const struct handlebars_map_kv_pair *b) {
    long x = handlebars_value_get_intval(a->value), y = handlebars_value_get_intval(b->value); return x < y ? -1 : x > y;
}
static void o_pair(struct handlebars_string *k, struct handlebars_value *v, int *first) {
    if (!*first) o_s(","); *first = 0; o_s("["); o_hstr(k); o_s(","); o_value(ctx, v); o_s("]");
}
static void op_maphist(J *q) {
    ctx = handlebars_context_ctor();
    struct handlebars_map *h[2];
    for (int i = 0; i < 2; i++) { h[i] = handlebars_map_ctor(ctx, (size_t) jint(q, "cap", 0)); handlebars_map_addref(h[i]); }
    J *os = jget(q, "ops");
    o_s("{\"r\":["); faults(q);
    for (size_t n = 0; n < jlen(os); n++) {
        J *o = jat(os, n); const char *p = S(o, 0); int i = I(o, 1); struct handlebars_map **m = &h[i];
        struct handlebars_string *k = NULL; size_t kl; char *kb = NULL;
        HANDLEBARS_VALUE_DECL(v);
        if (n) o_s(",");
        size_t at = olen;
        if (jlen(o) > 2 && json_object_is_type(jat(o, 2), json_type_array)) { kb = jbytes(jat(o, 2), &kl); a_off++; k = handlebars_string_ctor(ctx, kb, kl); a_off--; handlebars_string_addref(k); }
        if (jlen(o) > 3) handlebars_value_integer(v, I(o, 3));
        TRY {
            if (!strcmp(p, "add")) { *m = handlebars_map_add(*m, k, v); o_s("[]"); }
            else if (!strcmp(p, "upd")) { *m = handlebars_map_update(*m, k, v); o_s("[]"); }
            else if (!strcmp(p, "del")) { *m = handlebars_map_remove(*m, k); o_s("[]"); }
            else if (!strcmp(p, "get")) { struct handlebars_value *r = handlebars_map_find(*m, k); o_s("["); if (r) o_value(ctx, r); o_s("]"); }
            else if (!strcmp(p, "sadd")) { *m = handlebars_map_str_add(*m, kb, kl, v); o_s("[]"); }
            else if (!strcmp(p, "supd")) { *m = handlebars_map_str_update(*m, kb, kl, v); o_s("[]"); }
            else if (!strcmp(p, "sdel")) { *m = handlebars_map_str_remove(*m, kb, kl); o_s("[]"); }
            else if (!strcmp(p, "sget")) { struct handlebars_value *r = handlebars_map_str_find(*m, kb, kl); o_s("["); if (r) o_value(ctx, r); o_s("]"); }
            else if (!strcmp(p, "upd_own")) {   /* the value is the one stored under another key */
                size_t l2; char *b2 = jbytes(jat(o, 4), &l2); struct handlebars_value *r = handlebars_map_str_find(*m, b2, l2); free(b2);
                if (r) *m = handlebars_map_update(*m, k, r); o_s("[]");
            } else if (!strcmp(p, "del_own")) {  /* the key is the one the map holds */
                struct handlebars_string *own = NULL;
                handlebars_map_foreach(*m, x, key, value) { if (handlebars_string_eq(key, k)) own = key; } handlebars_map_foreach_end(*m);
                if (own) *m = handlebars_map_remove(*m, own); o_s("[]");
            }
            else if (!strcmp(p, "count")) o_f("[%zu]", handlebars_map_count(*m));
            else if (!strcmp(p, "each")) { int f = 1; o_s("["); handlebars_map_foreach(*m, x, key, value) { o_pair(key, value, &f); } handlebars_map_foreach_end(*m); o_s("]"); }
            else if (!strcmp(p, "veach")) {
                int f = 1; HANDLEBARS_VALUE_DECL(w); handlebars_value_map(w, *m); o_s("[");
                HANDLEBARS_VALUE_FOREACH_IDX_KV(w, x, key, c) { if ((int) x < 0) o_s("?"); o_pair(key, c, &f); } HANDLEBARS_VALUE_FOREACH_END(); o_s("]"); HANDLEBARS_VALUE_UNDECL(w);
            }
            else if (!strcmp(p, "at")) {
                handlebars_map_sparse_array_compact(*m); struct handlebars_string *key; struct handlebars_value *value; int f = 1;
                handlebars_map_get_kv_at_index(*m, (size_t) I(o, 2), &key, &value);
                if (handlebars_map_get_key_at_index(*m, (size_t) I(o, 2)) != key) o_s("?");
                o_pair(key, value, &f);
            }
            else if (!strcmp(p, "sort")) { *m = handlebars_map_sort(*m, cmp_asc); o_s("[]"); }
            else if (!strcmp(p, "sortd")) { int d = -1; *m = handlebars_map_sort_r(*m, cmp_r, &d); o_s("[]"); }
            else if (!strcmp(p, "sortv")) { *m = handlebars_map_sort(*m, cmp_val); o_s("[]"); }
            else if (!strcmp(p, "compact")) { handlebars_map_sparse_array_compact(*m); o_f("[%s]", handlebars_map_is_sparse(*m) ? "true" : "false"); }
            else if (!strcmp(p, "rehash")) { *m = handlebars_map_rehash(*m, I(o, 2) != 0); o_s("[]"); }
            else if (!strcmp(p, "copy")) { struct handlebars_map *c = handlebars_map_copy_ctor(*m, (size_t) I(o, 2)); handlebars_map_addref(c); handlebars_map_delref(*m); *m = c; o_s("[]"); }
            else if (!strcmp(p, "share")) { handlebars_map_addref(h[i]); handlebars_map_delref(h[1 - i]); h[1 - i] = h[i]; o_s("[]"); }
            else { fprintf(stderr, "driver: map op %s\n", p); exit(3); }
        }
        if (olen == at) o_s("[\"none\"]");
        HANDLEBARS_VALUE_UNDECL(v);
        if (k) handlebars_string_delref(k);
        free(kb);
    }
    faults_end();
    for (int i = 0; i < 2; i++) handlebars_map_delref(h[i]);
    handlebars_context_dtor(ctx);
}
static void op_hash(J *q) {
    ctx = handlebars_context_ctor(); J *a = jget(q, "keys"); o_s("{\"h\":[");
    for (size_t i = 0; i < jlen(a); i++) { struct handlebars_string *s = jhstr(ctx, jat(a, i)); o_f("%s%u", i ? "," : "", hbs_str_hash(s)); }
    o_s("]}"); handlebars_context_dtor(ctx);
}

/* ---- stacks ---- */
static void *fx[2];
/* a stack in memory of the caller's is not released but emptied when the last handle goes */
static void stk_drop(struct handlebars_stack *s, struct handlebars_stack *other) {
    if (s != other && ((void *) s == fx[0] || (void *) s == fx[1])) handlebars_stack_dtor(s); else handlebars_stack_delref(s);
}
static void op_stackhist(J *q) {
    ctx = handlebars_context_ctor();
    struct handlebars_stack *h[2]; struct handlebars_stack_save_buf sv[8]; int nsv = 0; long cap = jint(q, "cap", 0);
    for (int i = 0; i < 2; i++) {
        if (jint(q, "fixed", 0)) h[i] = handlebars_stack_init(ctx, calloc(1, handlebars_stack_size((size_t) cap)), (size_t) cap);
        else h[i] = handlebars_stack_ctor(ctx, (size_t) cap);
        handlebars_stack_addref(h[i]);
    }
    if (jint(q, "fixed", 0)) { fx[0] = h[0]; fx[1] = h[1]; } else fx[0] = fx[1] = NULL;
    J *os = jget(q, "ops");
    o_s("{\"r\":["); faults(q);
    for (size_t n = 0; n < jlen(os); n++) {
        J *o = jat(os, n); const char *p = S(o, 0); int i = I(o, 1);
        HANDLEBARS_VALUE_DECL(v); HANDLEBARS_VALUE_DECL(rv); struct handlebars_value *r;
        if (n) o_s(",");
        TRY {
            if (!strcmp(p, "push")) { jvalue(ctx, jat(o, 2), v); h[i] = handlebars_stack_push(h[i], v); o_s("[]"); }
            else if (!strcmp(p, "push_own")) { r = handlebars_stack_get(h[i], (size_t) I(o, 2)); if (r) h[i] = handlebars_stack_push(h[i], r); o_s("[]"); }
            else if (!strcmp(p, "set")) { jvalue(ctx, jat(o, 3), v); h[i] = handlebars_stack_set(h[i], (size_t) I(o, 2), v); o_s("[]"); }
            else if (!strcmp(p, "set_own")) { r = handlebars_stack_get(h[i], (size_t) I(o, 3)); if (r) h[i] = handlebars_stack_set(h[i], (size_t) I(o, 2), r); o_s("[]"); }
            else if (!strcmp(p, "pop")) { r = handlebars_stack_pop(h[i], rv); o_s("["); if (r) o_value(ctx, r); o_s("]"); }
            else if (!strcmp(p, "top")) { r = handlebars_stack_top(h[i]); o_s("["); if (r) o_value(ctx, r); o_s("]"); }
            else if (!strcmp(p, "get")) { r = handlebars_stack_get(h[i], (size_t) I(o, 2)); o_s("["); if (r) o_value(ctx, r); o_s("]"); }
            else if (!strcmp(p, "count")) o_f("[%zu]", handlebars_stack_count(h[i]));
            else if (!strcmp(p, "all")) { o_s("["); for (size_t x = 0; x < handlebars_stack_count(h[i]); x++) { if (x) o_s(","); o_value(ctx, handlebars_stack_get(h[i], x)); } o_s("]"); }
            else if (!strcmp(p, "prot")) o_f("[%zu]", handlebars_stack_protect(h[i], (size_t) I(o, 2)));
            else if (!strcmp(p, "trunc")) { handlebars_stack_truncate(h[i], (size_t) I(o, 2)); o_s("[]"); }
            else if (!strcmp(p, "save")) { if (nsv < 8) sv[nsv++] = handlebars_stack_save(h[i]); o_s("[]"); }
            else if (!strcmp(p, "restore")) { if (nsv > 0) handlebars_stack_restore(h[i], sv[--nsv]); o_s("[]"); }
            else if (!strcmp(p, "copy")) { struct handlebars_stack *c = handlebars_stack_copy_ctor(h[i], (size_t) I(o, 2)); handlebars_stack_addref(c); stk_drop(h[i], h[1 - i]); h[i] = c; o_s("[]"); }
            else if (!strcmp(p, "share")) { if (h[i] != h[1 - i]) { handlebars_stack_addref(h[i]); stk_drop(h[1 - i], h[i]); h[1 - i] = h[i]; } o_s("[]"); }
            else { fprintf(stderr, "driver: stack op %s\n", p); exit(3); }
        }
        HANDLEBARS_VALUE_UNDECL(rv); HANDLEBARS_VALUE_UNDECL(v);
    }
    faults_end();
    stk_drop(h[0], h[1]); stk_drop(h[1], NULL);
    if (jint(q, "fixed", 0)) { free(fx[0]); free(fx[1]); }
    handlebars_context_dtor(ctx);
}

/* ---- values: slots that share and copy ---- */
#define SLOTS 4
static void own_map(struct handlebars_value *v, struct handlebars_map *m) { v->v.map = m; }
/* handlebars_map_update and _add take the value of another variable: what it holds has an owner of its own */
static struct handlebars_map *raw(struct handlebars_map *(*fn)(struct handlebars_map *, struct handlebars_string *, struct handlebars_value *), struct handlebars_value *a, J *k, struct handlebars_value *c) {
    HANDLEBARS_VALUE_DECL(t); struct handlebars_map *m;
    handlebars_value_value(t, c); m = fn(handlebars_value_get_map(a), jhstr(ctx, k), t); HANDLEBARS_VALUE_UNDECL(t); return m;
}
/* ---- values: everything that can be asked of one ---- */
static int users(struct handlebars_value *v) {
    int n = handlebars_value_get_real_type(v) == HANDLEBARS_VALUE_TYPE_USER;
    HANDLEBARS_VALUE_FOREACH(v, c) { n += users(c); } HANDLEBARS_VALUE_FOREACH_END();
    return n;
}
/* everything that can be asked of a value; the value is given up on the way */
static void o_facts(struct handlebars_value *v, J *ks, J *is, int conv) {
    HANDLEBARS_VALUE_DECL(w); HANDLEBARS_VALUE_DECL(rv);
    o_f("[\"%s\",%ld,%s,%s,", handlebars_value_type_readable(handlebars_value_get_type(v)), handlebars_value_count(v),
        handlebars_value_get_boolval(v) ? "true" : "false", handlebars_value_is_empty(v) ? "true" : "false"); o_int(handlebars_value_get_intval(v)); o_f(",\"%.17g\"", handlebars_value_get_floatval(v));
    const char *sv = handlebars_value_get_strval(v);
    o_s(",["); if (sv) o_bytes(sv, handlebars_value_get_strlen(v)); o_f("],%zu,%s,%s,", handlebars_value_get_strlen(v), handlebars_value_is_scalar(v) ? "true" : "false", handlebars_value_is_callable(v) ? "true" : "false");
    struct handlebars_string *t = handlebars_value_to_string(v, ctx); o_hstr(t);
    o_s(","); t = handlebars_string_ctor(ctx, "<&", 2); t = handlebars_value_expression_append(ctx, v, t, true); o_hstr(t);
    o_s(","); o_hstr(handlebars_value_expression(ctx, v, false)); o_s(",");
    o_hstr(handlebars_value_expression(ctx, v, true)); o_s(",[");
    int f = 1; long n = 0;
    HANDLEBARS_VALUE_FOREACH_IDX_KV(v, i, k, c) {
        if (!f) o_s(","); f = 0; o_f("[%zu,[", i); if (k) o_hstr(k); o_s("],"); o_value(ctx, c); o_s("]");
        size_t j = 0; HANDLEBARS_VALUE_FOREACH_IDX_KV(v, i2, k2, c2) { if (i2 == j++ && !k == !k2) n++; } HANDLEBARS_VALUE_FOREACH_END();
    } HANDLEBARS_VALUE_FOREACH_END();
    o_f("],%ld,[", n);
    for (size_t i = 0; i < jlen(ks); i++) {
        size_t kl; char *kb = jbytes(jat(ks, i), &kl); struct handlebars_value *r = handlebars_value_map_find(v, jhstr(ctx, jat(ks, i)), rv);
        o_s(i ? ",[" : "["); if (r) o_value(ctx, r); o_s("]"); handlebars_value_null(rv);
        r = handlebars_value_map_str_find(v, kb, kl, rv); o_s(",["); if (r) o_value(ctx, r); o_s("]"); handlebars_value_null(rv); free(kb);
    }
    o_s("],[");
    for (size_t i = 0; i < jlen(is); i++) { struct handlebars_value *r = handlebars_value_array_find(v, (size_t) json_object_get_int64(jat(is, i)), rv); o_s(i ? ",[" : "["); if (r) o_value(ctx, r); o_s("]"); handlebars_value_null(rv); }
    o_s("],");
    char *d = handlebars_value_dump(v, ctx, 0); o_bytes(d, strlen(d));
    handlebars_value_value(w, v);
    o_f(",%s,", handlebars_value_eq(v, w) && handlebars_value_eq(w, v) ? "true" : "false");
    o_value(ctx, w); handlebars_value_null(v); o_s(","); o_value(ctx, w);
    o_f(",%d]", conv == 2 && users(w));
    HANDLEBARS_VALUE_UNDECL(rv); HANDLEBARS_VALUE_UNDECL(w);
}
static void op_heap(J *q) {
    ctx = handlebars_context_ctor();
    HANDLEBARS_VALUE_ARRAY_DECL(sl, SLOTS);
#define AT(i) HANDLEBARS_VALUE_ARRAY_AT(sl, i)
    J *init = jget(q, "init"), *os = jget(q, "ops");
    for (size_t i = 0; i < jlen(init); i++) jvalue(ctx, jat(init, i), AT(i));
    o_s("{\"r\":["); faults(q);
    for (size_t n = 0; n < jlen(os); n++) {
        J *o = jat(os, n); const char *p = S(o, 0); int i = I(o, 1); struct handlebars_value *a = AT(i), *r;
        if (n) o_s(",");
        HANDLEBARS_VALUE_DECL(rv);
        TRY {
            enum handlebars_value_type ty = handlebars_value_get_real_type(a);
            if (!strcmp(p, "lit")) { jvalue(ctx, jat(o, 2), a); o_s("[]"); }
            else if (!strcmp(p, "copy")) { handlebars_value_value(a, AT(I(o, 2))); o_s("[]"); }
            else if (!strcmp(p, "push")) { if (ty == HANDLEBARS_VALUE_TYPE_ARRAY) handlebars_value_array_push(a, AT(I(o, 2))); o_s("[]"); }
            else if (!strcmp(p, "set")) { if (ty == HANDLEBARS_VALUE_TYPE_ARRAY) handlebars_value_array_set(a, (size_t) I(o, 2), AT(I(o, 3))); o_s("[]"); }
            else if (!strcmp(p, "upd")) { if (ty == HANDLEBARS_VALUE_TYPE_MAP) handlebars_value_map_update(a, jhstr(ctx, jat(o, 2)), AT(I(o, 3))); o_s("[]"); }
            else if (!strcmp(p, "rawupd")) { if (ty == HANDLEBARS_VALUE_TYPE_MAP) own_map(a, raw(handlebars_map_update, a, jat(o, 2), AT(I(o, 3)))); o_s("[]"); }
            else if (!strcmp(p, "rawadd")) { if (ty == HANDLEBARS_VALUE_TYPE_MAP) own_map(a, raw(handlebars_map_add, a, jat(o, 2), AT(I(o, 3)))); o_s("[]"); }
            else if (!strcmp(p, "del")) { if (ty == HANDLEBARS_VALUE_TYPE_MAP) own_map(a, handlebars_map_remove(handlebars_value_get_map(a), jhstr(ctx, jat(o, 2)))); o_s("[]"); }
            else if (!strcmp(p, "sort")) { if (ty == HANDLEBARS_VALUE_TYPE_MAP) own_map(a, handlebars_map_sort(handlebars_value_get_map(a), cmp_asc)); o_s("[]"); }
            else if (!strcmp(p, "nth")) { r = handlebars_value_array_find(a, (size_t) I(o, 3), rv); if (r) handlebars_value_value(AT(I(o, 2)), r); o_f("[%s]", r ? "true" : "false"); }
            else if (!strcmp(p, "get")) { r = handlebars_value_map_find(a, jhstr(ctx, jat(o, 3)), rv); if (r) handlebars_value_value(AT(I(o, 2)), r); o_f("[%s]", r ? "true" : "false"); }
            else if (!strcmp(p, "nthinto")) {   /* straight into the slot: it may be the array itself */
                r = handlebars_value_array_find(a, (size_t) I(o, 3), AT(I(o, 2))); o_f("[%s]", r ? "true" : "false"); }
            else if (!strcmp(p, "getinto")) { r = handlebars_value_map_find(a, jhstr(ctx, jat(o, 3)), AT(I(o, 2))); o_f("[%s]", r ? "true" : "false"); }
            else if (!strcmp(p, "inner")) {   /* change an element of an element: take it out, change it, put it back */
                if (ty == HANDLEBARS_VALUE_TYPE_MAP && (r = handlebars_value_map_find(a, jhstr(ctx, jat(o, 2)), rv)) && handlebars_value_get_real_type(r) == HANDLEBARS_VALUE_TYPE_ARRAY) {
                    handlebars_value_array_push(r, AT(I(o, 3))); handlebars_value_map_update(a, jhstr(ctx, jat(o, 2)), r);
                }
                o_s("[]");
            }
            else if (!strcmp(p, "app")) {  /* append to a string: the value of the slot is replaced by the result */
                if (ty == HANDLEBARS_VALUE_TYPE_STRING) {
                    size_t l; char *b = jbytes(jat(o, 2), &l);
                    struct handlebars_string *s = handlebars_value_get_string(a);
                    handlebars_string_addref(s); handlebars_value_null(a);      /* now ours: shared when another value holds it */
                    s = handlebars_string_append(ctx, s, b, l);
                    handlebars_value_str(a, s); handlebars_string_delref(s); free(b);
                }
                o_s("[]");
            }
            else if (!strcmp(p, "flag")) { if (ty == HANDLEBARS_VALUE_TYPE_STRING) handlebars_value_set_flag(a, HANDLEBARS_VALUE_FLAG_SAFE_STRING); o_s("[]"); }
            else if (!strcmp(p, "each_upd")) {  /* the map is changed while it is walked: the walk is over what it was */
                int f = 1; o_s("[");
                if (ty == HANDLEBARS_VALUE_TYPE_MAP) {
                    HANDLEBARS_VALUE_FOREACH_KV(a, key, c) { o_pair(key, c, &f); handlebars_value_map_update(a, jhstr(ctx, jat(o, 2)), AT(I(o, 3))); } HANDLEBARS_VALUE_FOREACH_END();
                }
                o_s("]");
            }
            else if (!strcmp(p, "each_del")) {
                int f = 1; o_s("[");
                if (ty == HANDLEBARS_VALUE_TYPE_MAP) {
                    HANDLEBARS_VALUE_FOREACH_KV(a, key, c) { o_pair(key, c, &f); own_map(a, handlebars_map_remove(handlebars_value_get_map(a), jhstr(ctx, jat(o, 2)))); } HANDLEBARS_VALUE_FOREACH_END();
                }
                o_s("]");
            }
            else if (!strcmp(p, "each_set")) {  /* elements replaced while the array is walked */
                int f = 1; o_s("[");
                if (ty == HANDLEBARS_VALUE_TYPE_ARRAY) {
                    HANDLEBARS_VALUE_DECL(w); handlebars_value_value(w, a);
                    HANDLEBARS_VALUE_FOREACH_IDX(w, x, c) { if (!f) o_s(","); f = 0; o_value(ctx, c); handlebars_value_array_set(a, x, AT(I(o, 2))); } HANDLEBARS_VALUE_FOREACH_END();
                    HANDLEBARS_VALUE_UNDECL(w);
                }
                o_s("]");
            }
            else if (!strcmp(p, "fill")) { if (ty == HANDLEBARS_VALUE_TYPE_ARRAY) for (int x = 0; x < I(o, 3); x++) handlebars_value_array_push(a, AT(I(o, 2))); o_s("[]"); }
            else if (!strcmp(p, "mark")) { handlebars_value_set_flag(a, HANDLEBARS_VALUE_FLAG_SAFE_STRING); o_s("[]"); }
            else if (!strcmp(p, "facts")) { HANDLEBARS_VALUE_DECL(v); handlebars_value_value(v, a); o_facts(v, jat(o, 2), jat(o, 3), 0); HANDLEBARS_VALUE_UNDECL(v); }
            else if (!strcmp(p, "conv")) { handlebars_value_convert_ex(a, I(o, 2)); o_s("[]"); }
            else if (!strcmp(p, "eq")) o_f("[%s]", handlebars_value_eq(a, AT(I(o, 2))) ? "true" : "false");
            else if (!strcmp(p, "count")) o_f("[%ld]", handlebars_value_count(a));
            else if (!strcmp(p, "all")) { o_s("["); for (int x = 0; x < SLOTS; x++) { if (x) o_s(","); o_value(ctx, AT(x)); } o_s("]"); }
            else { fprintf(stderr, "driver: heap op %s\n", p); exit(3); }
        }
        HANDLEBARS_VALUE_UNDECL(rv);
    }
    faults_end();
    HANDLEBARS_VALUE_ARRAY_UNDECL(sl, SLOTS);
    handlebars_context_dtor(ctx);
}

/* ---- strings: slots of string references; an operation consumes its slot unless the string is shared ---- */
static struct handlebars_string *ss[SLOTS];
static void op_strhist(J *q) {
    ctx = handlebars_context_ctor();
    int rc = (int) jint(q, "rc", 1);   /* whether the slots count as references; without, no string is in two slots */
    J *init = jget(q, "init"), *os = jget(q, "ops");
    for (int i = 0; i < SLOTS; i++) {
        ss[i] = (size_t) i < jlen(init) ? jhstr(ctx, jat(init, (size_t) i)) : handlebars_string_init(ctx, 0);
        if (rc) handlebars_string_addref(ss[i]);
    }
    o_s("{\"r\":["); faults(q);
    for (size_t n = 0; n < jlen(os); n++) {
        J *o = jat(os, n); const char *p = S(o, 0); int i = I(o, 1); size_t l = 0, l2 = 0; char *b = NULL, *b2 = NULL; struct handlebars_string *s = ss[i], *t;
        if (n) o_s(",");
        if (jlen(o) > 2 && json_object_is_type(jat(o, 2), json_type_array)) b = jbytes(jat(o, 2), &l);
        if (jlen(o) > 3 && json_object_is_type(jat(o, 3), json_type_array)) b2 = jbytes(jat(o, 3), &l2);
        volatile int own = 0;
        step_mark = olen;
        if (handlebars_setjmp_ex(ctx, &step_buf)) {
            olen = step_mark; o_f("[\"err\",%d]", (int) handlebars_error_num(ctx)); ctx->e->num = 0; ctx->e->msg = NULL;
            if (own && a_hit) { a_off++; ss[i] = handlebars_string_init(ctx, 0); a_off--; if (rc) handlebars_string_addref(ss[i]); }
        } else {
            if (!strcmp(p, "lit")) { t = handlebars_string_ctor(ctx, b, l); if (rc) { handlebars_string_addref(t); handlebars_string_delref(s); } ss[i] = t; o_s("[]"); }
            else if (!strcmp(p, "share")) { int j = I(o, 2); if (rc) { handlebars_string_addref(s); handlebars_string_delref(ss[j]); ss[j] = s; } else if (i != j) ss[j] = handlebars_string_copy_ctor(ctx, s); o_s("[]"); }
            else if (!strcmp(p, "val")) { o_bytes(hbs_str_val(s), hbs_str_len(s)); }
            else if (!strcmp(p, "cstr")) { o_f("[%d]", hbs_str_val(s)[hbs_str_len(s)] == 0); }
            else if (!strcmp(p, "eq")) { o_f("[%s]", handlebars_string_eq(s, ss[I(o, 2)]) ? "true" : "false"); }
            else if (!strcmp(p, "eqs")) { o_f("[%s]", hbs_str_eq_strl(s, b, l) ? "true" : "false"); }
            else if (!strcmp(p, "hash")) { o_f("[%s]", hbs_str_hash(s) == handlebars_string_hash(hbs_str_val(s), hbs_str_len(s)) ? "true" : "false"); }
            else if (!strcmp(p, "find")) { const char *r = handlebars_strnstr(hbs_str_val(s), hbs_str_len(s), b, l); o_f("[%ld]", r ? (long) (r - hbs_str_val(s)) : -1L); }
            else {
/* operations that rewrite their string take the slot's reference and give one back; the others make a new string */
#define OWN(expr) do { own = 1; ss[i] = (expr); o_s("[]"); } while (0)
#define NEW(expr) do { struct handlebars_string *r_ = (expr); if (rc) { handlebars_string_addref(r_); handlebars_string_delref(s); } ss[i] = r_; o_s("[]"); } while (0)
                if (!strcmp(p, "htmlcat")) OWN(handlebars_string_htmlspecialchars_append(ctx, s, b, l));
                else if (!strcmp(p, "html")) NEW(handlebars_string_htmlspecialchars(ctx, b, l));
                else if (!strcmp(p, "cat")) OWN(handlebars_string_append(ctx, s, b, l));
                else if (!strcmp(p, "cats")) OWN(handlebars_string_append_str(ctx, s, ss[I(o, 2)]));
                else if (!strcmp(p, "fmt")) NEW(handlebars_string_asprintf(ctx, "<%s|%.*s|%d>", hbs_str_val(s), I(o, 2), hbs_str_val(s), I(o, 3)));
                else if (!strcmp(p, "fmtcat")) OWN(handlebars_string_asprintf_append(ctx, s, "<%s|%d>", b, I(o, 3)));
                else if (!strcmp(p, "trunc")) OWN(handlebars_string_truncate(s, (size_t) I(o, 2), (size_t) I(o, 3)));
                else if (!strcmp(p, "ltrim")) OWN(handlebars_string_ltrim(s, b, l));
                else if (!strcmp(p, "rtrim")) OWN(handlebars_string_rtrim(s, b, l));
                else if (!strcmp(p, "addc")) NEW(handlebars_string_addcslashes(ctx, s, b, l));
                else if (!strcmp(p, "stripc")) OWN(handlebars_string_stripcslashes(s));
                else if (!strcmp(p, "replace")) NEW(handlebars_str_replace(ctx, s, b, l, b2, l2));
                else if (!strcmp(p, "reduce")) OWN(handlebars_str_reduce(s, b, l, b2, l2));
                else if (!strcmp(p, "indent")) { a_off++; t = handlebars_string_ctor(ctx, b, l); a_off--; OWN(handlebars_string_indent(ctx, s, t)); }
                else if (!strcmp(p, "indcat")) { a_off++; t = handlebars_string_ctor(ctx, b2, l2); struct handlebars_string *u = handlebars_string_ctor(ctx, b, l); a_off--; OWN(handlebars_string_indent_append(ctx, s, u, t)); }
                else if (!strcmp(p, "copy")) NEW(handlebars_string_copy_ctor(ctx, s));
                else if (!strcmp(p, "extend")) OWN(handlebars_string_extend(ctx, s, hbs_str_len(s) + (size_t) I(o, 2)));
                else if (!strcmp(p, "compact")) OWN(handlebars_string_compact(s));
                else if (!strcmp(p, "join")) {
                    struct handlebars_string *ps[4] = {s, ss[I(o, 3)], s, NULL}; if (I(o, 4) < 3) ps[I(o, 4)] = NULL;
                    NEW(handlebars_string_implode(ctx, b, l, ps));
                }
                else { fprintf(stderr, "driver: string op %s\n", p); exit(3); }
            }
        }
        free(b); free(b2);
    }
    faults_end();
    handlebars_context_dtor(ctx);
}
static void op_valfn(J *q) {
    jmp_buf jb; ctx = handlebars_context_ctor();
    const char *src = jstr(q, "src"); size_t l = 0; char *text = jget(q, "text") ? jbytes(jget(q, "text"), &l) : NULL;
    HANDLEBARS_VALUE_DECL(v); HANDLEBARS_VALUE_DECL(w);
    if (handlebars_setjmp_ex(ctx, &jb)) { o_s("{"); o_err(ctx); o_s("}"); free(text); handlebars_context_dtor(ctx); return; }
    if (!strcmp(src, "native")) jvalue(ctx, jget(q, "v"), v);
    else if (!strcmp(src, "json")) handlebars_value_init_json_string(ctx, v, text);
    else if (!strcmp(src, "jsonl")) { char *ex = malloc(l ? l : 1); memcpy(ex, text, l); handlebars_value_init_json_stringl(ctx, v, ex, l); free(ex); }
    else if (!strcmp(src, "yaml")) handlebars_value_init_yaml_string(ctx, v, text);
    else if (!strcmp(src, "mixed")) {   /* a native container holding what the text says */
        handlebars_value_init_json_string(ctx, w, text);
        if (handlebars_value_get_type(w) == HANDLEBARS_VALUE_TYPE_MAP) {
            handlebars_value_map(v, handlebars_map_ctor(ctx, 3));
            HANDLEBARS_VALUE_FOREACH_KV(w, k, c) { handlebars_value_map_update(v, k, c); } HANDLEBARS_VALUE_FOREACH_END();
        } else if (handlebars_value_get_type(w) == HANDLEBARS_VALUE_TYPE_ARRAY) {
            handlebars_value_array(v, handlebars_stack_ctor(ctx, 3));
            HANDLEBARS_VALUE_FOREACH(w, c) { handlebars_value_array_push(v, c); } HANDLEBARS_VALUE_FOREACH_END();
        } else handlebars_value_value(v, w);
        handlebars_value_null(w);
    }
    int conv = (int) jint(q, "conv", 0);
    if (conv) handlebars_value_convert_ex(v, conv == 2);
    o_s("{\"r\":"); o_facts(v, jget(q, "keys"), jget(q, "idx"), conv); o_s("}");
    HANDLEBARS_VALUE_UNDECL(w); HANDLEBARS_VALUE_UNDECL(v);
    free(text); handlebars_context_dtor(ctx);
}
/* equality of every pair of values */
static void op_valeq(J *q) {
    ctx = handlebars_context_ctor(); J *vs = jget(q, "vs"); size_t n = jlen(vs); o_s("{\"r\":[");
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        HANDLEBARS_VALUE_DECL(a); HANDLEBARS_VALUE_DECL(b); jvalue(ctx, jat(vs, i), a); jvalue(ctx, jat(vs, j), b);
        o_f("%s%s", i + j ? "," : "", handlebars_value_eq(a, b) ? "true" : "false"); HANDLEBARS_VALUE_UNDECL(b); HANDLEBARS_VALUE_UNDECL(a);
    }
    o_s("]}"); handlebars_context_dtor(ctx);
}
int main(void) {
    static const struct { const char *name; void (*fn)(J *); } ops[] = {
        {"maphist", op_maphist}, {"hash", op_hash}, {"stackhist", op_stackhist}, {"heap", op_heap}, {"strhist", op_strhist}, {"valfn", op_valfn}, {"valeq", op_valeq}, {NULL, NULL}
    };
    char *line = NULL; size_t cap = 0; ssize_t n;
    o_init(); ocap = 65536; obuf = malloc(ocap);
    struct json_tokener *tok = json_tokener_new_ex(2000);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        json_tokener_reset(tok);
        J *q = json_tokener_parse_ex(tok, line, (int) n);
        if (!q) { fprintf(stderr, "driver: bad request\n"); return 3; }
        const char *op = jstr(q, "op"); int i;
        alarm((unsigned) jint(q, "alarm", 30));
        for (i = 0; ops[i].name; i++) if (!strcmp(ops[i].name, op)) { ops[i].fn(q); break; }
        if (!ops[i].name) { fprintf(stderr, "driver: bad op %s\n", op); return 3; }
        alarm(0);
        o_flush();
        json_object_put(q);
    }
    return 0;
}
