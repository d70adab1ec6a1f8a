/* Driver: one JSON request per input line, one JSON answer per output line.  Executes the real library. */
#include "common.h"
#include "clock.h"
#include "handlebars_cache_private.h"

static void o_ast(struct handlebars_ast_node *n);
static void o_list(struct handlebars_ast_list *l) {
    o_s("[");
    if (l) { struct handlebars_ast_list_item *it; int f = 1; for (it = l->first; it; it = it->next) { if (!f) o_s(","); f = 0; o_ast(it->data); } }
    o_s("]");
}
static void o_b(bool b) { o_s(b ? "true" : "false"); }
static void o_bs(struct handlebars_string *s) { if (s) o_bytes(hbs_str_val(s), hbs_str_len(s)); else o_s("[]"); }
static void o_ast(struct handlebars_ast_node *n) {
    if (!n) { o_s("[\"none\"]"); return; }
    switch (n->type) {
        case HANDLEBARS_AST_NODE_PROGRAM:
            o_s("[\"prog\","); o_b(n->node.program.chained); o_s(",[");
            if (n->node.program.block_param1) o_bs(n->node.program.block_param1);
            if (n->node.program.block_param2) { o_s(","); o_bs(n->node.program.block_param2); }
            o_s("],"); o_list(n->node.program.statements); o_s("]"); break;
        case HANDLEBARS_AST_NODE_CONTENT:
            o_s("[\"content\","); o_bs(n->node.content.value); o_s(","); o_bs(n->node.content.original); o_s("]"); break;
        case HANDLEBARS_AST_NODE_COMMENT:
            o_s("[\"comment\","); o_bs(n->node.comment.value); o_s("]"); break;
        case HANDLEBARS_AST_NODE_MUSTACHE:
            o_f("[\"mustache\",%d,", n->node.mustache.unescaped); o_b(n->node.mustache.is_decorator); o_s(",");
            o_ast(n->node.mustache.path); o_s(","); o_list(n->node.mustache.params); o_s(","); o_ast(n->node.mustache.hash); o_s("]"); break;
        case HANDLEBARS_AST_NODE_BLOCK:
            o_s("[\"block\","); o_b(n->node.block.is_decorator); o_s(","); o_ast(n->node.block.path); o_s(","); o_list(n->node.block.params); o_s(",");
            o_ast(n->node.block.hash); o_s(","); o_ast(n->node.block.program); o_s(","); o_ast(n->node.block.inverse); o_s("]"); break;
        case HANDLEBARS_AST_NODE_PARTIAL:
            o_s("[\"partial\","); o_ast(n->node.partial.name); o_s(","); o_list(n->node.partial.params); o_s(","); o_ast(n->node.partial.hash); o_s(",");
            o_bs(n->node.partial.indent); o_s("]"); break;
        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
            o_s("[\"pblock\","); o_ast(n->node.partial_block.path); o_s(","); o_list(n->node.partial_block.params); o_s(","); o_ast(n->node.partial_block.hash); o_s(",");
            o_ast(n->node.partial_block.program); o_s("]"); break;
        case HANDLEBARS_AST_NODE_RAW_BLOCK:
            o_s("[\"raw\","); o_ast(n->node.raw_block.path); o_s(","); o_list(n->node.raw_block.params); o_s(","); o_ast(n->node.raw_block.hash); o_s(",");
            o_ast(n->node.raw_block.program); o_s("]"); break;
        case HANDLEBARS_AST_NODE_PATH:
            o_s("[\"path\","); o_b(n->node.path.data); o_f(",%u,", n->node.path.depth); o_bs(n->node.path.original); o_s(",["); {
                struct handlebars_ast_list_item *it; int f = 1;
                if (n->node.path.parts) for (it = n->node.path.parts->first; it; it = it->next) { if (!f) o_s(","); f = 0; o_bs(it->data->node.path_segment.part); }
            } o_s("]]"); break;
        case HANDLEBARS_AST_NODE_SEXPR:
            o_s("[\"sexpr\","); o_ast(n->node.sexpr.path); o_s(","); o_list(n->node.sexpr.params); o_s(","); o_ast(n->node.sexpr.hash); o_s("]"); break;
        case HANDLEBARS_AST_NODE_HASH:
            o_s("[\"hash\","); o_list(n->node.hash.pairs); o_s("]"); break;
        case HANDLEBARS_AST_NODE_HASH_PAIR:
            o_s("["); o_bs(n->node.hash_pair.key); o_s(","); o_ast(n->node.hash_pair.value); o_s("]"); break;
        case HANDLEBARS_AST_NODE_STRING: o_s("[\"str\","); o_bs(n->node.string.value); o_s(","); o_b(n->node.string.is_single_quoted); o_s("]"); break;
        case HANDLEBARS_AST_NODE_NUMBER: o_s("[\"num\","); o_bs(n->node.number.value); o_s("]"); break;
        case HANDLEBARS_AST_NODE_BOOLEAN: o_s("[\"bool\","); o_bs(n->node.boolean.value); o_s("]"); break;
        case HANDLEBARS_AST_NODE_NUL: o_s("[\"null\"]"); break;
        case HANDLEBARS_AST_NODE_UNDEFINED: o_s("[\"undef\"]"); break;
        case HANDLEBARS_AST_NODE_NIL: o_s("[\"none\"]"); break;
        default: o_f("[\"?\",%d]", n->type); break;
    }
}
static void o_operand(struct handlebars_operand *p) {
    switch (p->type) {
        case handlebars_operand_type_null: o_s("[\"0\"]"); break;
        case handlebars_operand_type_boolean: o_s("[\"b\","); o_b(p->data.boolval); o_s("]"); break;
        case handlebars_operand_type_long: { long n = p->data.longval; if (n == (int) n) o_f("[\"l\",%ld]", n); else o_f("[\"L\",\"%ld\"]", n); break; }
        case handlebars_operand_type_string: o_s("[\"s\","); o_bs(p->data.string.string); o_s("]"); break;
        case handlebars_operand_type_array: o_s("[\"a\",[");
            for (size_t i = 0; i < p->data.array.count; i++) { if (i) o_s(","); o_bs(p->data.array.array[i].string); } o_s("]]"); break;
        default: o_s("[\"?\"]"); break;
    }
}
static void o_opcode(struct handlebars_opcode *c) {
    o_f("[\"%s\",", handlebars_opcode_readable_type(c->type));
    o_operand(&c->op1); o_s(","); o_operand(&c->op2); o_s(","); o_operand(&c->op3); o_s(","); o_operand(&c->op4); o_s("]");
}
static void o_program(struct handlebars_program *p) {
    o_f("[%d,%d,[", p->block_params, p->result_flags);
    for (size_t i = 0; i < p->opcodes_length; i++) { if (i) o_s(","); o_opcode(p->opcodes[i]); }
    o_s("],[");
    for (size_t i = 0; i < p->children_length; i++) { if (i) o_s(","); o_program(p->children[i]); }
    o_s("],[");
    for (size_t i = 0; i < p->decorators_length; i++) { if (i) o_s(","); o_program(p->decorators[i]); }
    o_s("]]");
}
/* a module, structurally: programs as [count, offset], opcodes */
static void o_module(struct handlebars_module *m) {
    o_f("{\"flags\":%lu,\"programs\":[", m->flags);
    for (size_t i = 0; i < m->program_count; i++) { if (i) o_s(","); o_f("[%zu,%zu,%zu]", m->programs[i].guid, m->programs[i].opcode_count, m->programs[i].opcode_offset); }
    o_s("],\"ops\":[");
    for (size_t i = 0; i < m->opcode_count; i++) { if (i) o_s(","); o_opcode(&m->opcodes[i]); }
    o_s("]}");
}

static void op_lex(J *q) {
    struct handlebars_context *ctx = handlebars_context_ctor(); jmp_buf buf;
    if (handlebars_setjmp_ex(ctx, &buf)) { o_s("{"); o_err(ctx); o_s("}"); goto done; }
    struct handlebars_parser *parser = handlebars_parser_ctor(ctx);
    struct handlebars_token **toks = handlebars_lex_ex(parser, jhstr(ctx, jget(q, "t")));
    o_s("{\"toks\":[");
    for (int i = 0; toks[i]; i++) {
        struct handlebars_string *s = handlebars_token_get_text(toks[i]);
        if (i) o_s(",");
        o_f("[\"%s\",", handlebars_token_readable_type(handlebars_token_get_type(toks[i]))); o_bs(s); o_s("]");
    }
    o_s("]}");
done:
    handlebars_context_dtor(ctx);
}
static void op_parse(J *q) {
    struct handlebars_context *ctx = handlebars_context_ctor(); jmp_buf buf;
    if (handlebars_setjmp_ex(ctx, &buf)) { olen = 0; o_s("{"); o_err(ctx); o_s("}"); goto done; }
    struct handlebars_parser *parser = handlebars_parser_ctor(ctx);
    struct handlebars_ast_node *ast = handlebars_parse_ex(parser, jhstr(ctx, jget(q, "t")), (unsigned) jint(q, "flags", 0));
    o_s("{\"ast\":"); o_ast(ast);
    if (jint(q, "print", 0)) { o_s(",\"print\":"); o_hstr(handlebars_ast_print(ctx, ast)); }
    if (jint(q, "tostr", 0)) { o_s(",\"tostr\":"); o_hstr(handlebars_ast_to_string(ctx, ast)); }
    o_f(",\"num\":%d}", (int) handlebars_error_num(ctx));
done:
    handlebars_context_dtor(ctx);
}
/* the helpers the compiler is told of */
static void setup_compiler(struct handlebars_context *ctx, struct handlebars_compiler *compiler, unsigned long flags, J *q) {
    J *ks = q ? jget(q, "known") : NULL;
    handlebars_compiler_set_flags(compiler, flags);
    if (!ks) return;
    const char **l = handlebars_talloc_array(ctx, const char *, jlen(ks) + 1);
    if (!l) handlebars_throw(ctx, HANDLEBARS_NOMEM, "Out of memory");
    for (size_t i = 0; i < jlen(ks); i++) l[i] = hbs_str_val(jhstr(ctx, jat(ks, i)));
    l[jlen(ks)] = NULL;
    handlebars_compiler_set_known_helpers(compiler, l);
    if (handlebars_compiler_get_known_helpers(compiler) != l) { fprintf(stderr, "driver: known helpers are not those set\n"); abort(); }
}
static void op_compile(J *q) {
    struct handlebars_context *ctx = handlebars_context_ctor(); jmp_buf buf;
    unsigned long flags = (unsigned long) jint(q, "flags", 0);
    if (handlebars_setjmp_ex(ctx, &buf)) { olen = 0; o_s("{"); o_err(ctx); o_s("}"); goto done; }
    struct handlebars_parser *parser = handlebars_parser_ctor(ctx);
    struct handlebars_ast_node *ast = handlebars_parse_ex(parser, jhstr(ctx, jget(q, "t")), (unsigned) flags);
    struct handlebars_compiler *compiler = handlebars_compiler_ctor(ctx);
    setup_compiler(ctx, compiler, flags, q);
    struct handlebars_program *program = handlebars_compiler_compile_ex(compiler, ast);
    o_s("{\"prog\":"); o_program(program);
    if (jint(q, "print", 0)) { o_s(",\"print\":"); o_hstr(handlebars_program_print(ctx, program, 0)); }
    if (jint(q, "module", 0)) { o_s(",\"module\":"); o_module(handlebars_program_serialize(ctx, program)); }
    o_s("}");
done:
    handlebars_context_dtor(ctx);
}
static struct handlebars_module *compile(struct handlebars_context *ctx, struct handlebars_string *tmpl, unsigned long flags, J *q) {
    struct handlebars_parser *parser = handlebars_parser_ctor(ctx);
    if (flags & handlebars_compiler_flag_compat) tmpl = handlebars_preprocess_delimiters(ctx, tmpl, NULL, NULL);
    struct handlebars_ast_node *ast = handlebars_parse_ex(parser, tmpl, (unsigned) flags);
    struct handlebars_compiler *compiler = handlebars_compiler_ctor(ctx);
    setup_compiler(ctx, compiler, flags, q);
    struct handlebars_program *program = handlebars_compiler_compile_ex(compiler, ast);
    return handlebars_program_serialize(ctx, program);
}
static struct handlebars_module *relocate(struct handlebars_context *ctx, struct handlebars_module *m) {
    size_t sz = m->size;
    char *flat = malloc(sz + 64), *dst = flat + 24;
    handlebars_module_normalize_pointers(m, NULL);
    memcpy(dst, m, sz);
    memset(m, 0xAA, sz);
    struct handlebars_module *r = (void *) talloc_memdup(ctx, dst, sz);
    free(flat);
    handlebars_module_patch_pointers(r);
    return r;
}
static struct handlebars_value *t_h, *t_p, *t_d;   /* where to keep the tables, when they are to be looked at afterwards */
static void setup_vm(struct handlebars_context *ctx, struct handlebars_vm *vm, J *q) {
    J *hs = jget(q, "helpers"), *ps = jget(q, "partials"), *dv = jget(q, "dv");
    HANDLEBARS_VALUE_DECL(helpers); HANDLEBARS_VALUE_DECL(partials); HANDLEBARS_VALUE_DECL(data);
    /* a machine also takes the options of the program that it executes: told of some of them, or of none */
    if (!jint(q, "noflags", 0)) handlebars_vm_set_flags(vm, (unsigned long) jint(q, "flags", 0) & (unsigned long) jint(q, "vmf", -1));
    handlebars_value_map(helpers, handlebars_map_ctor(ctx, jlen(hs)));
    for (size_t i = 0; i < jlen(hs); i++) {
        HANDLEBARS_VALUE_DECL(f); J *hj = jat(hs, i); int al = json_object_is_type(hj, json_type_array);
        const char *n = json_object_get_string(al ? jat(hj, 0) : hj), *impl = al ? json_object_get_string(jat(hj, 1)) : n;
        handlebars_value_helper(f, find_helper(impl)); handlebars_value_map_update(helpers, handlebars_string_ctor(ctx, n, strlen(n)), f);
        HANDLEBARS_VALUE_UNDECL(f);
    }
    handlebars_vm_set_helpers(vm, helpers);
    handlebars_value_map(partials, handlebars_map_ctor(ctx, jlen(ps)));
    for (size_t i = 0; i < jlen(ps); i++) {
        HANDLEBARS_VALUE_DECL(f); jvalue(ctx, jat(jat(ps, i), 1), f);
        handlebars_value_map_update(partials, jhstr(ctx, jat(jat(ps, i), 0)), f); HANDLEBARS_VALUE_UNDECL(f);
    }
    handlebars_vm_set_partials(vm, partials);
    if (dv) { jvalue(ctx, dv, data); handlebars_vm_set_data(vm, data); }
    if (t_h) { handlebars_value_value(t_h, helpers); handlebars_value_value(t_p, partials); if (dv) handlebars_value_value(t_d, data); }
    HANDLEBARS_VALUE_UNDECL(data); HANDLEBARS_VALUE_UNDECL(partials); HANDLEBARS_VALUE_UNDECL(helpers);
}
/* The same program executed again and again, on one machine and on two that take turns; then everything that went in is looked at */
static void op_pure(J *q) {
    struct handlebars_context *ctx = handlebars_context_ctor(); jmp_buf buf;
    unsigned long flags = (unsigned long) jint(q, "flags", 0);
    HANDLEBARS_VALUE_DECL(input); HANDLEBARS_VALUE_DECL(h); HANDLEBARS_VALUE_DECL(p); HANDLEBARS_VALUE_DECL(d);
    char *before = NULL; int wrote = 0;
    t_h = h; t_p = p; t_d = d;
    if (handlebars_setjmp_ex(ctx, &buf)) { if (!wrote) { olen = 0; o_s("{"); o_err(ctx); o_s("}"); } goto done; }
    struct handlebars_module *module = compile(ctx, jhstr(ctx, jget(q, "t")), flags, q);
    struct handlebars_vm *vm[2]; vm[0] = handlebars_vm_ctor(ctx); setup_vm(ctx, vm[0], q);
    vm[1] = handlebars_vm_ctor(ctx); if (!jint(q, "noflags", 0)) handlebars_vm_set_flags(vm[1], flags & (unsigned long) jint(q, "vmf", -1)); handlebars_vm_set_helpers(vm[1], h); handlebars_vm_set_partials(vm[1], p); if (jget(q, "dv")) handlebars_vm_set_data(vm[1], d);
    jvalue(ctx, jget(q, "data"), input);
    before = malloc(module->size); memcpy(before, module, module->size);
    J *order = jget(q, "order");
    o_s("{\"out\":[");
    for (size_t k = 0; k < jlen(order); k++) {
        jmp_buf b2; struct handlebars_string *out = NULL; volatile int err = 0;
        struct handlebars_vm *v = vm[json_object_get_int(jat(order, k))];
        if (handlebars_setjmp_ex(ctx, &b2)) err = handlebars_error_num(ctx); else out = handlebars_vm_execute(v, module, input);
        if (k) o_s(",");
        if (err) { o_f("[\"err\",%d]", err); ctx->e->num = 0; ctx->e->msg = NULL; } else { o_s("[\"out\","); o_hstr(out); o_s("]"); }
        HBSCTX(ctx)->e->jmp = &buf;
    }
    o_f("],\"module\":%s,\"input\":", memcmp(before, module, module->size) ? "false" : "true"); o_value(ctx, input);
    o_s(",\"partials\":"); o_value(ctx, p); o_s(",\"helpers\":"); o_value(ctx, h); o_s(",\"dv\":"); o_value(ctx, d); o_s("}");
    wrote = 1;
    handlebars_vm_dtor(vm[0]); handlebars_vm_dtor(vm[1]);
done:
    t_h = t_p = t_d = NULL;
    free(before);
    HANDLEBARS_VALUE_UNDECL(d); HANDLEBARS_VALUE_UNDECL(p); HANDLEBARS_VALUE_UNDECL(h); HANDLEBARS_VALUE_UNDECL(input);
    handlebars_context_dtor(ctx);
}
static void op_render(J *q) {
    struct handlebars_context *ctx = handlebars_context_ctor(); jmp_buf buf;
    unsigned long flags = (unsigned long) jint(q, "flags", 0);
    if (handlebars_setjmp_ex(ctx, &buf)) { olen = 0; o_s("{"); o_err(ctx); o_rec(); o_s("}"); goto done; }
    struct handlebars_module *module = compile(ctx, jhstr(ctx, jget(q, "t")), flags, q);
    if (jint(q, "via", 0) == 1) module = relocate(ctx, module);
    struct handlebars_vm *vm = handlebars_vm_ctor(ctx);
    setup_vm(ctx, vm, q);
    struct handlebars_cache *cache = NULL; const char *cn = jstr(q, "cache");
    if (cn && !strcmp(cn, "simple")) cache = handlebars_cache_simple_ctor(ctx);
    if (cn && !strcmp(cn, "mmap")) cache = handlebars_cache_mmap_ctor(ctx, 2097152, 2053);
    if (cache) handlebars_vm_set_cache(vm, cache);
    HANDLEBARS_VALUE_DECL(input);
    const char *js = jstr(q, "json");
    const char *ys = jstr(q, "yaml");
    if (js) handlebars_value_init_json_string(ctx, input, js);
    else if (ys) handlebars_value_init_yaml_string(ctx, input, ys);
    else jvalue(ctx, jget(q, "data"), input);
    if (jint(q, "convert", 0)) handlebars_value_convert_ex(input, true);
    o_s("{\"out\":[");
    for (long k = 0; k < jint(q, "times", 1); k++) {
        if (jint(q, "trace", 0)) r_start(vm);
        struct handlebars_string *out = handlebars_vm_execute(vm, module, input);
        if (k) o_s(",");
        if (handlebars_error_num(ctx) && !out) { olen = 0; o_s("{"); o_err(ctx); o_rec(); o_s("}"); goto done; }
        o_hstr(out);
    }
    o_f("],\"num\":%d", (int) handlebars_error_num(ctx));
    if (jint(q, "after", 0)) { o_s(",\"after\":"); o_value(ctx, input); }
    o_rec();
    o_s("}");
    HANDLEBARS_VALUE_UNDECL(input);
    handlebars_vm_dtor(vm);
done:
    handlebars_context_dtor(ctx);
}
/* A history of renders that share a context, a cache and up to four machines */
static void tick(long n) { if (fake_now >= 0) fake_now += n; }
static struct handlebars_cache *mkcache(struct handlebars_context *ctx, J *c, const char *path) {
    const char *kind = c ? jstr(c, "kind") : NULL; struct handlebars_cache *k;
    if (!kind) return NULL;
    k = !strcmp(kind, "simple") ? handlebars_cache_simple_ctor(ctx) : !strcmp(kind, "mmap")
        ? handlebars_cache_mmap_ctor(ctx, (size_t) jint(c, "size", 65536), (size_t) jint(c, "entries", 16)) : handlebars_cache_lmdb_ctor(ctx, path);
    k->max_age = jint(c, "age", -1); k->max_size = (size_t) jint(c, "max_size", 0); k->max_entries = (size_t) jint(c, "max_n", 0);
    return k;
}
static void one_render(struct handlebars_context *ctx, struct handlebars_vm *vm, struct handlebars_cache *cache, J *q) {
    unsigned long flags = (unsigned long) jint(q, "flags", 0);
    struct handlebars_string *tmpl = jhstr(ctx, jget(q, "t")); struct handlebars_error *e = ctx->e; jmp_buf *jmp = e->jmp;
    int bare = (int) jint(q, "bare", 0);    /* no handler: the library's own takes the error, and the result is NULL */
    setup_vm(ctx, vm, q);
    if (!jget(q, "dv")) { HANDLEBARS_VALUE_DECL(none); handlebars_vm_set_data(vm, none); HANDLEBARS_VALUE_UNDECL(none); }
    if (cache) handlebars_vm_set_cache(vm, cache);
    HANDLEBARS_VALUE_DECL(input); jvalue(ctx, jget(q, "data"), input);
    if (flags & handlebars_compiler_flag_compat) tmpl = handlebars_preprocess_delimiters(ctx, tmpl, NULL, NULL);
    if (bare) e->jmp = NULL;
    jmp_buf *expect = e->jmp; int bad = 0;
    struct handlebars_parser *parser = handlebars_parser_ctor(ctx);
    struct handlebars_ast_node *ast = handlebars_parse_ex(parser, tmpl, (unsigned) flags);
    bad |= e->jmp != expect;
    struct handlebars_module *module = NULL;
    if (ast && !e->num) {
        struct handlebars_compiler *compiler = handlebars_compiler_ctor(ctx);
        setup_compiler(ctx, compiler, flags, q);
        struct handlebars_program *program = handlebars_compiler_compile_ex(compiler, ast);
        bad |= (e->jmp != expect) << 1;
        if (!e->num) { e->jmp = jmp; module = handlebars_program_serialize(ctx, program); e->jmp = expect; }
    }
    o_s("{\"out\":[");
    int failed = !module;
    for (long k = 0; module && k < jint(q, "times", 1); k++) {
        struct handlebars_string *out = handlebars_vm_execute(vm, module, input);
        bad |= (e->jmp != expect) << 2;
        if (k) o_s(",");
        if (!out) { o_f("null"); failed = 1; break; }
        o_hstr(out);
    }
    o_s("]");
    if (failed) { o_s(","); o_err(ctx); }
    if (bad) o_f(",\"jmp\":%d", bad);
    o_s("}");
    e->jmp = jmp;
    if (failed) { e->num = 0; e->msg = NULL; }
    else if (e->num) { o_f("num-after-success"); }
    HANDLEBARS_VALUE_UNDECL(input);
}
static void op_renders(J *q) {
    struct handlebars_context *ctx = handlebars_context_ctor();
    J *cj = jget(q, "cache"), *seq = jget(q, "seq"); volatile size_t i; size_t n = jlen(seq);
    char dir[64] = "/tmp/hbsrenderXXXXXX", file[128], lockf[128]; int lmdb = cj && !strcmp(jstr(cj, "kind"), "lmdb");
    if (lmdb) { if (!mkdtemp(dir)) exit(3); snprintf(file, sizeof file, "%s/db", dir); snprintf(lockf, sizeof lockf, "%s/db-lock", dir); }
    struct handlebars_cache *volatile cache; struct handlebars_vm *volatile vms[4] = {0}; jmp_buf jb;
    fake_now = 1000; t_tick = tick;
    if (handlebars_setjmp_ex(ctx, &jb)) { olen = 0; o_s("{"); o_err(ctx); o_s("}"); goto done; }
    cache = mkcache(ctx, cj, file); t_cache = cache;
    o_s("{\"r\":[");
    for (i = 0; i < n; i++) {
        J *x = jat(seq, i); const char *what = jstr(x, "do");
        if (i) o_s(",");
        size_t mark = olen;
        ctx->e->jmp = NULL;
        if (handlebars_setjmp_ex(ctx, &jb)) { olen = mark; o_s("{"); o_err(ctx); o_s("}"); ctx->e->num = 0; ctx->e->msg = NULL; continue; }
        if (what) {
            if (!strcmp(what, "tick")) fake_now += jint(x, "n", 1);
            else if (!strcmp(what, "gc")) handlebars_cache_gc(cache);
            else if (!strcmp(what, "reset")) handlebars_cache_reset(cache);
            else if (!strcmp(what, "reopen")) { handlebars_cache_dtor(cache); cache = NULL; cache = mkcache(ctx, cj, file); t_cache = cache; }
            o_s("{}");
        } else {
            int v = (int) jint(x, "vm", -1); struct handlebars_vm *vm;
            if (v < 0) vm = handlebars_vm_ctor(ctx); else { if (!vms[v]) vms[v] = handlebars_vm_ctor(ctx); vm = vms[v]; }
            one_render(ctx, vm, cache, x);
        }
    }
    o_s("]");
    if (cache) { struct handlebars_cache_stat s = handlebars_cache_stat(cache); o_f(",\"hits\":%ld,\"inuse\":%ld", (long) s.hits, (long) s.refcount); }
    o_s("}");
done:
    t_cache = NULL; t_tick = NULL; fake_now = -1;
    ctx->e->jmp = NULL;
    handlebars_context_dtor(ctx);
    if (lmdb) { unlink(file); unlink(lockf); rmdir(dir); }
}
static void op_delims(J *q) {
    struct handlebars_context *ctx = handlebars_context_ctor(); jmp_buf buf;
    if (handlebars_setjmp_ex(ctx, &buf)) { olen = 0; o_s("{"); o_err(ctx); o_s("}"); goto done; }
    J *o = jget(q, "open"), *c = jget(q, "close");
    struct handlebars_string *r = handlebars_preprocess_delimiters(ctx, jhstr(ctx, jget(q, "t")), o ? jhstr(ctx, o) : NULL, c ? jhstr(ctx, c) : NULL);
    o_s("{\"out\":"); o_hstr(r); o_s("}");
done:
    handlebars_context_dtor(ctx);
}

/* history of one serialized program: slots of memory that it is copied between */
#define MSLOTS 4
static struct handlebars_context *mctx;
static void op_modhist(J *q) {
    struct handlebars_context *ctx = handlebars_context_ctor(); jmp_buf buf;
    unsigned long flags = (unsigned long) jint(q, "flags", 0);
    char *raw[MSLOTS] = {0}; struct handlebars_module *slot[MSLOTS] = {0};
    struct handlebars_context *vctx = NULL;
    mctx = ctx;
    if (handlebars_setjmp_ex(ctx, &buf)) { olen = 0; o_s("{"); o_err(mctx); o_s("}"); goto done; }
    struct handlebars_module *m = compile(ctx, jhstr(ctx, jget(q, "t")), flags, q);
    size_t size = m->size, poff = (char *) m->opcodes - (char *) m, goff = (char *) m->programs - (char *) m;
    if (m->size != talloc_get_size(m)) { o_s("{\"bad\":\"size\"}"); goto done; }
    o_f("{\"size\":%zu,\"steps\":[", size);
    /* every slot has room around it so that a wrong pointer base is seen */
    for (int i = 0; i < MSLOTS; i++) { raw[i] = malloc(size + 16 * (i + 1)); memset(raw[i], 0xEE, size + 16 * (i + 1)); slot[i] = (void *) (raw[i] + 16 * (i + 1)); }
    memcpy(slot[0], m, size);   /* slot 0 starts as a byte copy of the original, whose address it still names */
    void *orig = m;
    J *ops_ = jget(q, "ops");
    for (size_t k = 0; k < jlen(ops_); k++) {
        J *o = jat(ops_, k); const char *n = json_object_get_string(jat(o, 0)); int i = json_object_get_int(jat(o, 1)), j = json_object_get_int(jat(o, 2));
        struct handlebars_module *a = slot[i];
        if (k) o_s(",");
        if (!strcmp(n, "copy")) { memcpy(slot[j], a, size); o_s("[]"); }
        else if (!strcmp(n, "norm")) { handlebars_module_normalize_pointers(a, j < 0 ? NULL : slot[j]); o_s("[]"); }
        else if (!strcmp(n, "patch")) { handlebars_module_patch_pointers(a); o_s("[]"); }
        else if (!strcmp(n, "hash")) { handlebars_module_generate_hash(a); o_s("[]"); }
        else if (!strcmp(n, "verify")) {
            o_f("[%s]", handlebars_module_verify(a, NULL) ? "true" : "false");
        } else if (!strcmp(n, "where")) {   /* what the block says about where it is, and where its tables point */
            long w[3] = {-9, -9, -9}; char *b[3] = {(char *) a->addr, (char *) a->opcodes - poff, (char *) a->programs - goff};
            for (int x = 0; x < 3; x++) { if (!b[x]) w[x] = -1; else if (b[x] == orig) w[x] = 9; else for (int y = 0; y < MSLOTS; y++) if (b[x] == (char *) slot[y]) w[x] = y; }
            o_f("[%ld,%ld,%ld]", w[0], w[1], w[2]);
        } else if (!strcmp(n, "corrupt")) {  /* every byte after the hash matters, except the size that says how much there is */
            size_t st = offsetof(struct handlebars_module, version), bad = 0, tried = 0; unsigned step = (unsigned) jint(q, "step", 1);
            for (size_t x = st; x < size; x += step) {
                if (x >= offsetof(struct handlebars_module, size) && x < offsetof(struct handlebars_module, size) + sizeof(size_t)) continue;
                unsigned char old = ((unsigned char *) a)[x];
                for (int bit = 0; bit < 8; bit += 3) { ((unsigned char *) a)[x] = old ^ (unsigned char) (1 << bit); tried++; if (handlebars_module_verify(a, NULL)) bad++; }
                ((unsigned char *) a)[x] = old;
            }
            o_f("[%zu,%zu]", tried > 0 ? (size_t) 1 : 0, bad);
        } else if (!strcmp(n, "run")) {
            vctx = handlebars_context_ctor(); mctx = vctx; jmp_buf b2;
            if (handlebars_setjmp_ex(vctx, &b2)) { o_s("[\"err\","); o_f("%d]", (int) handlebars_error_num(vctx)); }
            else {
                struct handlebars_vm *vm = handlebars_vm_ctor(vctx); setup_vm(vctx, vm, q);
                HANDLEBARS_VALUE_DECL(input); jvalue(vctx, jget(q, "data"), input);
                struct handlebars_string *out = handlebars_vm_execute(vm, a, input);
                o_s("[\"out\","); o_hstr(out); o_s("]");
                HANDLEBARS_VALUE_UNDECL(input); handlebars_vm_dtor(vm);
            }
            handlebars_context_dtor(vctx); vctx = NULL; mctx = ctx;
        } else if (!strcmp(n, "dump")) { o_module(a); }
        else if (!strcmp(n, "same")) {  /* the same program serialized again is the same block */
            struct handlebars_context *c2 = handlebars_context_ctor();
            char *noise = talloc_size(c2, 777); memset(noise, 0x5A, 777); talloc_free(noise);
            struct handlebars_module *z = compile(c2, jhstr(c2, jget(q, "t")), flags, q);
            char *x = malloc(size); memcpy(x, a, size); handlebars_module_normalize_pointers(z, NULL);
            ((struct handlebars_module *) x)->ts = z->ts = 0; ((struct handlebars_module *) x)->hash = z->hash = 0;
            long diff = -1; if (z->size != size) diff = -2; else for (size_t y = 0; y < size; y++) if (x[y] != ((char *) z)[y]) { diff = (long) y; break; }
            o_f("[%ld]", diff); free(x); handlebars_context_dtor(c2);
        }
    }
    o_s("]}");
done:
    for (int i = 0; i < MSLOTS; i++) free(raw[i]);
    handlebars_context_dtor(ctx);
}

/* A directory of partials, written, changed and read through the loader */
#include <ftw.h>
#include <sys/stat.h>
static int rm_one(const char *p, const struct stat *st, int t, struct FTW *f) { (void) st; (void) t; (void) f; return remove(p); }
static int rm_one_in(const char *p, const struct stat *st, int t, struct FTW *f) { return strncmp(p, "/tmp/hbsload", 12) ? 0 : rm_one(p, st, t, f); }
static void op_loader(J *q) {
    struct handlebars_context *ctx = handlebars_context_ctor(); jmp_buf jb;
    char dir[64] = "/tmp/hbsloadXXXXXX", base[80], path[8192];
    if (!mkdtemp(dir)) exit(3);
    snprintf(base, sizeof base, "%s/in", dir); mkdir(base, 0700);
    HANDLEBARS_VALUE_DECL(loader); J *ops_ = jget(q, "ops"); volatile size_t i;
    if (handlebars_setjmp_ex(ctx, &jb)) { olen = 0; o_s("{"); o_err(ctx); o_s("}"); goto done; }
    char *b2 = base; if (jint(q, "slash", 0)) strcat(b2, "/");
    struct handlebars_string *bs = handlebars_string_ctor(ctx, base, strlen(base)), *es = jhstr(ctx, jget(q, "ext"));
    handlebars_value_partial_loader_init(ctx, bs, es, loader);
    o_s("{\"r\":[");
    for (i = 0; i < jlen(ops_); i++) {
        J *o = jat(ops_, i); const char *n = json_object_get_string(jat(o, 0));
        if (i) o_s(",");
        size_t mark = olen; ctx->e->jmp = NULL;
        if (handlebars_setjmp_ex(ctx, &jb)) { olen = mark; o_f("[\"err\",%d]", (int) handlebars_error_num(ctx)); if (!ctx->e->msg) o_s("nomsg"); ctx->e->num = 0; ctx->e->msg = NULL; continue; }
        if (!strcmp(n, "write") || !strcmp(n, "mkdir") || !strcmp(n, "rm")) {
            size_t k; char *name = jbytes(jat(o, 1), &k);
            snprintf(path, sizeof path, "%s/%s", base, name); free(name);
            if (strstr(path, "..") || strncmp(path, dir, strlen(dir))) exit(3);
            nftw(path, rm_one_in, 16, FTW_DEPTH | FTW_PHYS);
            if (*n != 'r') for (char *x = path + strlen(base) + 1; (x = strchr(x, '/')); x++) { *x = 0; struct stat sb; if (!lstat(path, &sb) && !S_ISDIR(sb.st_mode)) unlink(path); mkdir(path, 0700); *x = '/'; }
            if (*n == 'm') mkdir(path, 0700);
            if (*n == 'w') { char *c = jbytes(jat(o, 2), &k); FILE *f = fopen(path, "wb"); if (!f) exit(3); fwrite(c, 1, k, f); fclose(f); free(c); }
            o_s("[]");
        } else if (!strcmp(n, "find")) {
            HANDLEBARS_VALUE_DECL(rv); struct handlebars_value *v = handlebars_value_map_find(loader, jhstr(ctx, jat(o, 1)), rv);
            o_s("["); if (v) { struct handlebars_string *s = handlebars_value_get_string(v); if (!s) o_s("\"nostring\""); else o_hstr(s); } o_s("]");
            HANDLEBARS_VALUE_UNDECL(rv);
        } else if (!strcmp(n, "list")) {
            o_f("[%ld,[", handlebars_value_count(loader)); int f = 0;
            if (handlebars_value_count(loader) > 0) {
                HANDLEBARS_VALUE_FOREACH_KV(loader, key, child) { if (f++) o_s(","); o_s("["); o_hstr(key); o_s(","); o_hstr(handlebars_value_get_string(child)); o_s("]"); } HANDLEBARS_VALUE_FOREACH_END();
            }
            o_s("]]");
        } else {
            J *x = jat(o, 1); unsigned long flags = (unsigned long) jint(x, "flags", 0);
            struct handlebars_module *module = compile(ctx, jhstr(ctx, jget(x, "t")), flags, x);
            struct handlebars_vm *vm = handlebars_vm_ctor(ctx); setup_vm(ctx, vm, x); handlebars_vm_set_partials(vm, loader);
            HANDLEBARS_VALUE_DECL(input); jvalue(ctx, jget(x, "data"), input);
            struct handlebars_string *out = handlebars_vm_execute(vm, module, input);
            o_s("[\"out\","); o_hstr(out); o_s("]");
            HANDLEBARS_VALUE_UNDECL(input); handlebars_vm_dtor(vm);
        }
    }
    o_s("]}");
done:
    ctx->e->jmp = NULL;
    HANDLEBARS_VALUE_UNDECL(loader);
    handlebars_context_dtor(ctx);
    nftw(dir, rm_one_in, 16, FTW_DEPTH | FTW_PHYS);
}

/* Allocations that fail */
struct attempt { int err; char *out; size_t len; int jmp, nomsg; };
static void keep(struct attempt *a, struct handlebars_string *out) { if (out) { a->out = malloc(hbs_str_len(out) + 1); a->len = hbs_str_len(out); memcpy(a->out, hbs_str_val(out), a->len); } }
struct oomst { struct handlebars_context *ctx; struct handlebars_vm *vm; struct handlebars_cache *cache; struct handlebars_module *module; struct handlebars_value *input; };
/* one run through the phases; what: "full" everything, "exec" only the execution of a program made before */
static void attempt(struct oomst *s, J *q, const char *what, long fail, struct attempt *a) {
    struct handlebars_context *volatile ctx = s->ctx; jmp_buf buf; unsigned long flags = (unsigned long) jint(q, "flags", 0);
    memset(a, 0, sizeof *a); a_n = 0; a_hit = 0; a_fail = fail;
    if (!ctx) { ctx = s->ctx = handlebars_context_ctor(); if (!ctx) { a->err = -1; a_fail = 0; return; } }
    ctx->e->jmp = NULL;
    if (handlebars_setjmp_ex(ctx, &buf)) { a->err = (int) handlebars_error_num(ctx); a->nomsg = !ctx->e->msg; goto done; }
    struct handlebars_string *out = NULL;
    if (!strcmp(what, "exec")) out = handlebars_vm_execute(s->vm, s->module, s->input);
    else {
        struct handlebars_string *t = jhstr(ctx, jget(q, "t"));
        if (!strcmp(what, "delims")) out = handlebars_preprocess_delimiters(ctx, t, NULL, NULL);
        else {
            if (flags & handlebars_compiler_flag_compat) t = handlebars_preprocess_delimiters(ctx, t, NULL, NULL);
            struct handlebars_parser *parser = handlebars_parser_ctor(ctx);
            if (!strcmp(what, "lex")) {
                struct handlebars_token **k = handlebars_lex_ex(parser, t); out = handlebars_string_init(ctx, 16);
                for (; *k; k++) out = handlebars_string_append_str(ctx, out, handlebars_token_print(ctx, *k, 1));
            } else {
                struct handlebars_ast_node *ast = handlebars_parse_ex(parser, t, (unsigned) flags);
                if (!strcmp(what, "ast")) out = handlebars_ast_print(ctx, ast);
                else if (!strcmp(what, "text")) out = handlebars_ast_to_string(ctx, ast);
                else {
                    struct handlebars_compiler *compiler = handlebars_compiler_ctor(ctx); setup_compiler(ctx, compiler, flags, q);
                    struct handlebars_program *program = handlebars_compiler_compile_ex(compiler, ast);
                    if (!strcmp(what, "ops")) out = handlebars_program_print(ctx, program, 0);
                    else {
                        struct handlebars_module *m = handlebars_program_serialize(ctx, program);
                        if (!strcmp(what, "module")) { m->ts = 0; m->hash = 0; m->addr = NULL; out = handlebars_module_print(ctx, m); }
                        else {
                            HANDLEBARS_VALUE_DECL(input); struct handlebars_vm *vm = handlebars_vm_ctor(ctx); setup_vm(ctx, vm, q);
                            if (s->cache) handlebars_vm_set_cache(vm, s->cache);
                            const char *js = jstr(q, "json"), *ys = jstr(q, "yaml");
                            if (js) handlebars_value_init_json_string(ctx, input, js); else if (ys) handlebars_value_init_yaml_string(ctx, input, ys); else jvalue(ctx, jget(q, "data"), input);
                            if (jint(q, "convert", 0)) handlebars_value_convert_ex(input, true);
                            out = handlebars_vm_execute(vm, m, input);
                            HANDLEBARS_VALUE_UNDECL(input);
                            keep(a, out);
                            handlebars_vm_dtor(vm);
                        }
                    }
                }
            }
        }
    }
    a->jmp = ctx->e->jmp != &buf;
    if (!out) { a->err = -2; goto done; }
    if (handlebars_error_num(ctx)) a->err = -3;
    if (!a->out) keep(a, out);
done:
    a_fail = 0; ctx->e->jmp = NULL; ctx->e->num = 0; ctx->e->msg = NULL;
}
static void op_oom(J *q) {
    struct attempt ref, a; struct oomst s = {0}; const char *what = jstr(q, "what"), *cn = jstr(q, "cache"); jmp_buf jb;
    long from = jint(q, "from", 1), to = jint(q, "to", 1000000), step = jint(q, "step", 1), gap = jint(q, "gap", 3), max = jint(q, "max", 0), bad = 0, runs = 0, k;
    struct { char sig[16]; long k, n; } cls[256]; int ncls = 0, started = 0;
    HANDLEBARS_VALUE_DECL(input);
    a_hooks();
    o_s("{\"bad\":[");
    memset(&ref, 0, sizeof ref);
    for (k = from - step; k <= to; k += step) {
        /* everything afresh: the reference (no fault), then a fault at k; then with what is left a fault further on; then none */
        memset(&s, 0, sizeof s); int first = !started, done = 0; started = 1;
        long plan[4] = {first ? 0x7fffffff : k, first ? 0 : k + gap, first ? 0 : (k * 7 + gap) % (k + 11) + 1, 0};
        if (cn || !strcmp(what, "exec")) {
            s.ctx = handlebars_context_ctor();
            if (handlebars_setjmp_ex(s.ctx, &jb)) { ref.err = (int) handlebars_error_num(s.ctx); handlebars_context_dtor(s.ctx); break; }
            if (cn) s.cache = !strcmp(cn, "simple") ? handlebars_cache_simple_ctor(s.ctx) : handlebars_cache_mmap_ctor(s.ctx, 2097152, 2053);
            if (!strcmp(what, "exec")) {
                s.module = compile(s.ctx, jhstr(s.ctx, jget(q, "t")), (unsigned long) jint(q, "flags", 0), q);
                s.vm = handlebars_vm_ctor(s.ctx); setup_vm(s.ctx, s.vm, q); if (s.cache) handlebars_vm_set_cache(s.vm, s.cache);
                jvalue(s.ctx, jget(q, "data"), input); s.input = input;
            }
        }
        char sig[16] = ""; size_t sl = 0;
        for (int i = 0; i < 4; i++) {
            attempt(&s, q, what, plan[i], &a); runs++;
            int hit = a_hit;
            if (first && i == 0) { ref = a; if (max && a_n / max > step) { step = a_n / max; k = from - step; } continue; }
            int same = a.err == ref.err && a.len == ref.len && (!a.out || !memcmp(a.out, ref.out, a.len)) && !a.nomsg && !a.jmp;
            int nomem = (a.err == HANDLEBARS_NOMEM && !a.nomsg) || (a.err == -1 && i < 3);
            if (!first || i) { sig[sl++] = hit ? 'F' : '-'; sig[sl++] = same ? 'r' : nomem ? 'm' : 'w'; sig[sl] = 0; }
            if (!(hit && nomem) && !same) {
                if (bad++ < 5) { o_f("%s[%ld,%d,%ld,%d,", bad > 1 ? "," : "", k, i, plan[i], a.err); if (a.out) o_bytes(a.out, a.len); else o_s("null"); o_f(",%d]", hit); }
            }
            if (i == 0 && !first && !hit) done = 1;
            free(a.out);
        }
        if (!strcmp(what, "exec")) handlebars_value_null(input);
        if (!first) { int j = 0; while (j < ncls && strcmp(cls[j].sig, sig)) j++; if (j < 256) { if (j == ncls) { strcpy(cls[ncls].sig, sig); cls[ncls].k = k; cls[ncls++].n = 0; } cls[j].n++; } }
        if (s.ctx) { s.ctx->e->jmp = NULL; handlebars_context_dtor(s.ctx); }
        if (done) break;
    }
    o_s("],\"cls\":["); for (int j = 0; j < ncls; j++) o_f("%s[\"%s\",%ld,%ld]", j ? "," : "", cls[j].sig, cls[j].k, cls[j].n);
    o_f("],\"n\":%ld,\"runs\":%ld,\"err\":%d,\"out\":", k, runs, ref.err); if (ref.out) o_bytes(ref.out, ref.len); else o_s("null"); o_s("}");
    free(ref.out);
    HANDLEBARS_VALUE_UNDECL(input);
    handlebars_memory_fail_disable();
}
/* the printed forms of a template */
static void op_print(J *q) {
    static const char *const w[] = {"lex", "ast", "ops", "module"};
    a_hooks(); o_s("{");
    for (int i = 0; i < 4; i++) {
        struct oomst s = {0}; struct attempt a;
        attempt(&s, q, w[i], 0x7fffffff, &a);
        o_f("%s\"%s\":[", i ? "," : "", w[i]);
        if (a.err) o_f("\"err\",%d]", a.err); else { o_s("\"out\","); o_bytes(a.out, a.len); o_s("]"); }
        free(a.out);
        if (s.ctx) handlebars_context_dtor(s.ctx);
    }
    o_s("}");
    handlebars_memory_fail_disable();
}
static const struct { const char *name; void (*fn)(J *); } ops[] = {
    {"oom", op_oom},
    {"print", op_print},
    {"loader", op_loader},
    {"modhist", op_modhist}, {"pure", op_pure}, {"renders", op_renders},
    {"lex", op_lex}, {"parse", op_parse}, {"compile", op_compile}, {"render", op_render}, {"delims", op_delims}, {NULL, NULL}
};
int main(void) {
    char *line = NULL; size_t cap = 0; ssize_t n;
    o_init(); ocap = 65536; obuf = malloc(ocap);
    struct json_tokener *tok = json_tokener_new_ex(2000);
    while ((n = getline(&line, &cap, stdin)) > 0) {
        json_tokener_reset(tok);
        J *q = json_tokener_parse_ex(tok, line, (int) n);
        if (!q) { fprintf(stderr, "driver: bad request\n"); return 3; }
        const char *op = jstr(q, "op");
        int i;
        alarm((unsigned) jint(q, "alarm", 30));
        for (i = 0; ops[i].name; i++) if (!strcmp(ops[i].name, op)) { ops[i].fn(q); break; }
        if (!ops[i].name) { fprintf(stderr, "driver: bad op %s\n", op); return 3; }
        alarm(0);
        o_flush();
        json_object_put(q);
    }
    return 0;
}
