------------------------------- MODULE HbsSem -------------------------------
(***************************************************************************)
(* Meaning of templates: evaluation of the syntax tree in an environment.  *)
(*                                                                         *)
(* env: fl (options), helpers (registered: << <<name, function>>.. >>),    *)
(*      partials (<< <<name, value>>.. >>), ctxs (contexts, outermost      *)
(*      first), bps (block params in scope: [n |-> names, v |-> values]),  *)
(*      pbs (partial blocks), data, dep (depth of running programs),       *)
(*      mod (the template being run), pre (partials prepared), mach (programs are executed as the   *)
(*      instructions the compiler made of them), h, hh (values and hashes  *)
(*      the callers of the running program have on the machine's stacks).  *)
(* st:  what evaluation changes: id (next container identity), d (current  *)
(*      delimiters, <<>> or <<open, close>>), used (names of partials that *)
(*      were asked for), log (the first calls of functions that are not    *)
(*      the library's, and of the logger: what they were given), info (what *)
(*      the log helper writes where there is no logger).                   *)
(* Every evaluator returns [e, v, st]; e is an error number or 0.          *)
(***************************************************************************)
EXTENDS HbsCompiler, HbsValues, HbsDelims

MaxDepth == 384
MaxCtxs == 96
MaxStack == 96
E_BALANCE == 99     \* the machine took from its callers' operands, or left some: no compiled program does

Rv(v, st) == [e |-> 0, v |-> v, st |-> st]
Xe(e, st) == [e |-> e, v |-> VNull, st |-> st]
Fresh(st) == [st EXCEPT !.id = @ + 1]

Top(env) == env.ctxs[Len(env.ctxs)]
CtxAt(env, d) == IF d >= Len(env.ctxs) THEN VNull ELSE env.ctxs[Len(env.ctxs) - d]
CEnv(env) == [bps |-> [i \in 1..Len(env.bps) |-> env.bps[i].n], sn |-> 0, fl |-> env.fl, kn |-> env.kn]

(* a registered helper, or a builtin: <<function>> or <<>> *)
LookupHelper(env, name) ==
    LET i == KeyAt(env.helpers, name, 1) IN
    IF i # 0 THEN <<env.helpers[i][2]>> ELSE IF name \in Builtins THEN << <<"hb", name>> >> ELSE <<>>

S_bhm == B("blockHelperMissing")
S_hm == B("helperMissing")
S_each == B("each")
S_if == B("if")
S_parent == B("_parent")
S_pblock == B("@partial-block")

RECURSIVE Walk(_, _, _)
(* value reached from v by the segments from position i; <<>> when there is none *)
Walk(v, parts, i) == IF i > Len(parts) THEN <<v>> ELSE LET c == Seg(v, parts[i]) IN IF c = <<>> THEN <<>> ELSE Walk(c[1], parts, i + 1)

-----------------------------------------------------------------------------
(* Paths.  call = <<>>, or the name of the helper to be called with this value as the fallback, which is no lookup at all when
   there is such a helper.  term: is this lookup one that strict mode makes an error when it finds nothing *)
Missing(env, call, st) == IF call # <<>> /\ LookupHelper(env, call[1]) # <<>> THEN Rv(VNull, st) ELSE Xe(E_ERROR, st)

RECURSIVE WalkCtx(_, _, _, _, _, _, _)
WalkCtx(env, v, parts, i, term, call, st) ==
    LET last == i = Len(parts)
        strict == "strict" \in env.fl
        assume == "assume_objects" \in env.fl
        none == IF strict /\ term THEN Missing(env, call, st) ELSE Rv(VNull, st)
        c == Seg(v, parts[i])
    IN IF ~IsCont(v) THEN IF assume /\ last THEN Missing(env, call, st) ELSE none
       ELSE IF c = <<>> THEN IF (strict \/ assume) /\ ~last THEN Missing(env, call, st) ELSE none
       ELSE IF last THEN Rv(c[1], st) ELSE WalkCtx(env, c[1], parts, i + 1, term, call, st)

RECURSIVE Nearest(_, _, _)
(* compat: the nearest enclosing context object with the member *)
Nearest(ctxs, i, k) == IF i = 0 THEN VNull ELSE IF MapFind(ctxs[i], k) # <<>> THEN ctxs[i] ELSE Nearest(ctxs, i - 1, k)

RECURSIVE Up(_, _)
Up(data, n) == IF n = 0 THEN data ELSE LET p == MapFind(data, S_parent) IN Up(IF p = <<>> THEN VNull ELSE p[1], n - 1)

LookupData(env, path, term, call, st) ==
    LET strict == "strict" \in env.fl
        assume == "assume_objects" \in env.fl
        key == path.parts[1]
        f == MapFind(Up(env.data, path.depth), key)
        req == strict /\ term
        first == IF f # <<>> THEN f
                 ELSE IF key = B("root") THEN <<env.ctxs[1]>>
                 ELSE IF key = B("partial-block") /\ env.pbs # <<>> THEN << <<"pb", LastOf(env.pbs)>> >>
                 ELSE <<>>
    IN IF first = <<>> THEN IF assume \/ req THEN Missing(env, call, st) ELSE Rv(VNull, st)
       ELSE LET w == Walk(first[1], path.parts, 2) IN
            IF w = <<>> THEN IF strict \/ assume THEN Missing(env, call, st) ELSE Rv(VNull, st)
            ELSE IF IsNull(w[1]) /\ req THEN Missing(env, call, st)
            ELSE Rv(w[1], st)

PathValue(env, path, term, call, st) ==
    LET scoped == ScopedId(path)
        bp == IF path.depth = 0 /\ ~scoped THEN BpLookup(CEnv(env), path) ELSE <<>>
    IN IF bp # <<>>
       THEN LET lv == env.bps[Len(env.bps) - bp[1]].v
                w == IF bp[2] >= Len(lv) THEN <<>> ELSE Walk(lv[bp[2] + 1], path.parts, 2)
            IN Rv(IF w = <<>> THEN VNull ELSE w[1], st)
       ELSE IF ~HasId(path) THEN Rv(CtxAt(env, path.depth), st)
       ELSE IF path.data THEN LookupData(env, path, term, call, st)
       ELSE WalkCtx(env, IF "compat" \in env.fl /\ ~scoped THEN Nearest(env.ctxs, Len(env.ctxs), path.parts[1]) ELSE CtxAt(env, path.depth),
                    path.parts, 1, term, call, st)

-----------------------------------------------------------------------------
(* a template's tree and program: [e, ph, n, c]; d: <<>> or the delimiters it starts with *)
PrepareKn(fl, kn, src, ind, d) ==
    LET pre == IF "compat" \notin fl THEN [ok |-> TRUE, s |-> src, e |-> 0]
               ELSE IF d # <<>> THEN Delims(src, d[1], d[2]) ELSE Delims(src, DefOpen, DefClose)
        p == Parse(Indent(pre.s, ind), "ignore_standalone" \in fl)
        c == CompileKn(p.n, fl, kn)
        bad(e, ph) == [e |-> e, ph |-> ph, n |-> None, c |-> <<>>]
    IN IF ~pre.ok THEN bad(pre.e, "delims") ELSE IF ~p.ok THEN bad(p.e, "parse") ELSE IF c.err # 0 THEN bad(c.err, "compile")
       ELSE [e |-> 0, ph |-> "run", n |-> p.n, c |-> c]
Prepare(fl, src, ind, d) == PrepareKn(fl, {}, src, ind, d)
(* the partials, prepared (saves doing it at every call) *)
PrepareAll(fl, partials) == LET strs == SelectSeq(partials, LAMBDA x : IsStr(x[2])) IN
                            TLCEval([i \in 1..Len(strs) |-> <<strs[i][2][2], TLCEval(Prepare(fl, strs[i][2][2], <<>>, <<>>))>>])

-----------------------------------------------------------------------------
Operand(o) == CASE o[1] = "l" -> VInt(o[2]) [] o[1] = "L" -> <<"I", o[2]>> [] o[1] = "b" -> VBool(o[2]) [] o[1] = "s" -> VStr(o[2]) [] OTHER -> VNull
RECURSIVE RunProg(_, _, _, _, _, _), Stmts(_, _, _, _, _), Stmt(_, _, _), ParamVal(_, _, _), Params(_, _, _, _, _), HashVals(_, _, _, _, _),
          Call(_, _, _, _, _, _, _, _), CallFn(_, _, _, _, _), Ambig(_, _, _, _, _, _, _), SexprVal(_, _, _, _),
          EachFrom(_, _, _, _, _, _, _, _), RunTemplate(_, _, _, _, _, _), PartialStmt(_, _, _), CallNamed(_, _, _, _, _),
          AmbigDo(_, _, _, _, _, _, _, _), PartialDo(_, _, _, _, _, _, _), Exec(_, _, _), Instr(_, _, _, _, _)

(* a compiled program, and the state of one that starts: operands, hashes being built, the context of the last getContext, whether
   the last ambiguous call was answered by a helper, and the text written *)
Code(listing) == [t |-> "code", bp |-> <<>>, c |-> listing]
M0 == [stk |-> <<>>, hs |-> <<>>, lctx |-> VNull, fun |-> FALSE, out |-> <<>>]

(* run a (sub-)program: the text it writes *)
RunProg(env, prog, ctx, data, bpv, st) ==
    IF prog.t = "none" THEN Rv(<<>>, st)
    ELSE IF env.dep >= MaxDepth THEN Xe(E_STACK, st)
    ELSE LET push == env.ctxs = <<>> \/ ~ValEq(Top(env), ctx) IN
         IF push /\ Len(env.ctxs) >= MaxCtxs THEN Xe(E_STACK, st)
         ELSE LET e2 == [env EXCEPT !.ctxs = IF push THEN Append(@, ctx) ELSE @, !.data = data, !.dep = @ + 1,
                                    !.bps = Append(@, [n |-> prog.bp, v |-> bpv])]
              IN IF prog.t = "code" THEN Exec(e2, prog.c, st) ELSE Stmts(e2, prog.ss, 1, <<>>, st)

Stmts(env, ss, i, out, st) ==
    IF i > Len(ss) THEN Rv(out, st)
    ELSE LET r == Stmt(env, ss[i], st) IN IF r.e # 0 THEN r ELSE Stmts(env, ss, i + 1, out \o r.v, r.st)

(* the value of an argument *)
ParamVal(env, n, st) ==
    IF env.fl \cap {"string_params", "track_ids"} # {} THEN Xe(E_ERROR, st)
    ELSE CASE n.t = "path" -> PathValue(env, n, FALSE, <<>>, st)
           [] n.t = "sexpr" -> SexprVal(env, n, TRUE, st)
           [] n.t = "str" -> Rv(VStr(n.v), st)
           [] n.t = "num" -> Rv(Operand(LitOp(n.v)), st)
           [] n.t = "bool" -> Rv(VBool(n.v # S_false), st)
           [] OTHER -> Rv(VNull, st)
Params(env, ps, i, acc, st) ==
    IF i > Len(ps) THEN Rv(acc, st)
    ELSE LET r == ParamVal(env, ps[i], st) IN IF r.e # 0 THEN r ELSE Params(env, ps, i + 1, Append(acc, r.v), r.st)
(* the hash is a map; of two equal keys the first counts *)
HashVals(env, ps, i, acc, st) ==
    IF i > Len(ps) THEN Rv(acc, st)
    ELSE LET r == ParamVal(env, ps[i][2], st) IN IF r.e # 0 THEN r ELSE HashVals(env, ps, i + 1, Append(acc, <<ps[i][1], r.v>>), r.st)
RECURSIVE HashPairs(_, _, _)
HashPairs(ps, i, acc) == IF i = 0 THEN acc ELSE HashPairs(ps, i - 1, PairsUpdate(acc, ps[i][1], ps[i][2]))
HashVal(env, h, st) ==
    IF h.t = "none" THEN Rv(VMap(st.id, <<>>), Fresh(st))
    ELSE LET r == HashVals(env, h.pairs, 1, <<>>, st) IN
         IF r.e # 0 THEN r ELSE Rv(VMap(r.st.id, HashPairs(r.v, Len(r.v), <<>>)), Fresh(r.st))

Opt(env, hash, pg, ig, name) == [hash |-> hash, scope |-> Top(env), data |-> env.data, pg |-> pg, ig |-> ig, name |-> name]

(* a call with arguments or of a known helper *)
Call(env, path, params, hash, pg, ig, name, st0) ==
    LET a == Params(env, params, 1, <<>>, st0)
        h == HashVal(env, hash, a.st)
        simple == SimpleId(path)
    IN IF a.e # 0 THEN a ELSE IF h.e # 0 THEN h
       ELSE IF IsKnown(env, path) THEN LET f == LookupHelper(env, IdPart(path)) IN
                                       IF f = <<>> THEN Xe(E_ERROR, h.st) ELSE CallFn(env, f[1], a.v, Opt(env, h.v, pg, ig, IdPart(path)), h.st)
       ELSE LET v == PathValue(env, path, TRUE, IF simple THEN <<path.orig>> ELSE <<>>, h.st)
                f == LookupHelper(env, path.orig)
                o == Opt(env, h.v, pg, ig, path.orig)
            IN IF v.e # 0 THEN v
               ELSE IF simple /\ f # <<>> THEN CallFn(env, f[1], a.v, o, v.st)
               ELSE IF IsCallable(v.v) THEN CallFn(env, v.v, a.v, o, v.st)
               ELSE CallFn(env, LookupHelper(env, S_hm)[1], a.v, o, v.st)

(* a name without arguments: helper, function of the context, or field.  v = [how, v]: how is "fun" when a helper's (or a
   lambda section's) result is final *)
Ambig(env, path, pg, ig, text, block, st0) ==
    LET r == PathValue(env, path, TRUE, <<IdPart(path)>>, st0) IN
    IF r.e # 0 THEN r ELSE AmbigDo(env, r.v, IdPart(path), pg, ig, text, block, r.st)
AmbigDo(env, val, name, pg, ig, text, block, st0) ==
    LET o == Opt(env, VMap(st0.id, <<>>), pg, ig, name)
        st == Fresh(st0)
        f == LookupHelper(env, name)
        fin(how, c) == IF c.e # 0 THEN c ELSE Rv(<<how, IF IsNull(c.v) THEN val ELSE c.v>>, c.st)
    IN IF "mustache_style_lambdas" \in env.fl /\ IsCallable(val)
       THEN LET c == CallFn(env, val, <<VStr(text)>>, o, st) IN
            IF c.e # 0 THEN c
            ELSE IF Empty(c.v) THEN Rv(<<"fun", val>>, c.st)
            ELSE LET t == RunTemplate(env, ToText(c.v), val, <<>>, block, c.st) IN
                 IF t.e # 0 THEN t ELSE Rv(<<"fun", VStr(t.v)>>, t.st)
       ELSE IF f # <<>> THEN fin("fun", CallFn(env, f[1], <<>>, o, st))
       ELSE IF IsCallable(val) THEN fin("val", CallFn(env, val, <<>>, o, st))
       ELSE fin("val", CallFn(env, LookupHelper(env, S_hm)[1], <<>>, o, st))

(* a plain path: functions are called with the current context *)
Plain(env, path, st) ==
    LET r == PathValue(env, path, TRUE, <<>>, st) IN
    IF r.e # 0 \/ ~IsCallable(r.v) THEN r
    ELSE CallFn(env, r.v, <<Top(env)>>, [hash |-> VNull, scope |-> Top(env), data |-> VNull, pg |-> None, ig |-> None, name |-> <<>>], r.st)

(* value of a mustache or subexpression *)
SexprVal(env, n, sexpr, st) ==
    LET path == ToPath(n.path)
        kind == Classify(CEnv(env), path, n.params, n.hash, sexpr)
    IN CASE kind = "helper" -> Call(env, path, n.params, n.hash, None, None, <<>>, st)
         [] kind = "simple" -> Plain(env, path, st)
         [] OTHER -> LET r == Ambig(env, path, None, None, <<>>, FALSE, st) IN IF r.e # 0 THEN r ELSE Rv(r.v[2], r.st)

CallNamed(env, name, argv, o, st) == CallFn(env, LookupHelper(env, name)[1], argv, o, st)

BlockStmt(env, n, st) ==
    LET path == ToPath(n.path)
        kind == Classify(CEnv(env), path, n.params, n.hash, FALSE)
        raw == n.t = "raw"
        text == IF raw \/ n.prog.t = "none" \/ "mustache_style_lambdas" \notin env.fl THEN <<>> ELSE ToStr(n.prog, {})
        w(r) == IF r.e # 0 THEN r ELSE Rv(Text(r.v, FALSE), r.st)
        bhm(v, name, s) == CallNamed(env, S_bhm, <<v>>, [Opt(env, VMap(s.id, <<>>), n.prog, n.inv, name) EXCEPT !.name = name], Fresh(s))
    IN CASE kind = "helper" -> w(Call(env, path, n.params, n.hash, n.prog, n.inv, <<>>, st))
         [] kind = "simple" -> LET r == Plain(env, path, st) IN IF r.e # 0 THEN r ELSE w(bhm(r.v, path.orig, r.st))
         [] OTHER -> LET r == Ambig(env, path, n.prog, n.inv, text, n.prog.t # "none" \/ n.inv.t # "none", st) IN
                     IF r.e # 0 THEN r
                     ELSE IF r.v[1] = "fun" THEN w(Rv(r.v[2], r.st))
                     ELSE w(bhm(r.v[2], <<>>, r.st))

(* without the alternate-decorators option a decorator is an instruction the machine does not have *)
DecoStmt(env, n, st) ==
    IF "alternate_decorators" \in env.fl THEN Rv(<<>>, st) ELSE Xe(E_ERROR, st)

Stmt(env, n, st) ==
    CASE n.t = "content" -> Rv(n.v, st)
      [] n.t = "comment" -> Rv(<<>>, st)
      [] n.t = "mustache" -> IF n.isdec THEN DecoStmt(env, n, st)
                             ELSE LET r == SexprVal(env, n, FALSE, st) IN
                                  IF r.e # 0 THEN r ELSE Rv(Text(r.v, n.unesc = 0 /\ "no_escape" \notin env.fl), r.st)
      [] n.t = "block" /\ n.isdec -> DecoStmt(env, n, st)
      [] n.t \in {"block", "raw"} -> BlockStmt(env, n, st)
      [] n.t \in {"partial", "pblock"} -> PartialStmt(env, n, st)

-----------------------------------------------------------------------------
(* partials *)
PartialStmt(env, n, st0) ==
    LET block == n.t = "pblock"
        nm == IF block THEN n.path ELSE n.name
        dyn == nm.t = "sexpr"
        d == IF dyn THEN SexprVal(env, nm, TRUE, st0) ELSE Rv(VNull, st0)
        a == IF n.params # <<>> THEN ParamVal(env, n.params[1], d.st)
             ELSE IF "explicit_partial_context" \in env.fl THEN Rv(VNull, d.st)
             ELSE ParamVal(env, EmptyPath, d.st)
        h == HashVal(env, n.hash, a.st)
        ind == IF block THEN <<>> ELSE n.indent
        prevent == "prevent_indent" \in env.fl /\ ind # <<>>
        name == IF dyn THEN IF IsStr(d.v) THEN <<d.v[2]>> ELSE <<>> ELSE IF nm.t = "num" THEN <<ToText(Operand(NumOp(nm.v)))>> ELSE <<StringValue(nm)>>
        r == PartialDo(env, name, a.v, h.v, IF block THEN n.prog ELSE None, IF prevent THEN <<>> ELSE ind, h.st)
    IN IF d.e # 0 THEN d ELSE IF a.e # 0 THEN a ELSE IF h.e # 0 THEN h
       ELSE IF r.e # 0 THEN r ELSE Rv((IF prevent THEN ind ELSE <<>>) \o r.v, r.st)
(* name: <<bytes>>, or <<>> when a computed name is no string; pg: the partial block's program *)
PartialDo(env, name, arg, hash, pg, ind, st0) ==
    LET block == pg.t # "none"
        compat == "compat" \in env.fl
        reg == IF name = <<>> THEN 0 ELSE KeyAt(env.partials, name[1], 1)
        \* the context, extended by the hash
        ctx == IF IsMap(arg) /\ hash[3] # <<>> THEN VMap(st0.id, PairsMerge(arg[3], hash[3], 1)) ELSE IF IsNull(arg) THEN hash ELSE arg
        st == [Fresh(st0) EXCEPT !.used = IF name = <<>> THEN @ ELSE Append(@, name[1])]
        clo == [id |-> st.id, prog |-> pg, ctxs |-> env.ctxs, bps |-> env.bps, pbs |-> env.pbs, mod |-> env.mod, kn |-> env.kn]
        partial == IF reg # 0 THEN <<env.partials[reg][2]>>
                   ELSE IF name = <<S_pblock>> /\ env.pbs # <<>> THEN << <<"pb", LastOf(env.pbs)>> >>
                   ELSE IF block THEN << <<"pb", clo>> >>
                   ELSE <<>>
        env2 == IF block THEN [env EXCEPT !.pbs = Append(@, clo)] ELSE env
        o == [Opt(env, hash, pg, None, <<>>) EXCEPT !.name = <<>>]
        r == IF IsStr(partial[1]) THEN LET t == RunTemplate(env2, partial[1][2], ctx, IF compat THEN ind ELSE <<>>, FALSE, Fresh(st)) IN
                                       IF t.e # 0 THEN t ELSE Rv(VStr(t.v), t.st)
             ELSE IF ~IsCallable(partial[1]) THEN Xe(E_ERROR, st)
             ELSE CallFn(env2, partial[1], <<ctx>>, o, Fresh(st))
        text == Text(r.v, FALSE)
    IN IF block /\ Len(env.pbs) >= MaxCtxs THEN Xe(E_STACK, st)
       ELSE IF partial = <<>> THEN IF compat THEN Rv(<<>>, st) ELSE Xe(E_ERROR, st)
       ELSE IF r.e # 0 THEN r
       ELSE Rv(IF compat THEN text ELSE Indent(text, ind), r.st)

(* a template given as text, run in the current environment *)
RunTemplate(env, src, input, ind, delims, st) ==
    LET k == IF (delims /\ st.d # <<>>) \/ ind # <<>> THEN 0 ELSE KeyAt(env.pre, src, 1)
        t == IF k # 0 THEN env.pre[k][2] ELSE Prepare(env.fl, src, ind, IF delims THEN st.d ELSE <<>>)
        r == RunProg([env EXCEPT !.bps = <<>>, !.mod = st.id, !.kn = {}], IF env.mach THEN Code(t.c) ELSE t.n, input, env.data, <<>>, Fresh(st))
    IN IF src = <<>> THEN Rv(<<>>, st)
       ELSE IF t.e # 0 THEN Xe(t.e, st)
       ELSE IF r.e # 0 THEN r ELSE Rv(r.v, [r.st EXCEPT !.d = st.d])

-----------------------------------------------------------------------------
(* functions *)
Frame(env, o, st) == IF IsMap(o.data) THEN o.data[3] ELSE <<>>

EachFrom(env, items, i, o, base, out, ismap, st) ==
    IF i > Len(items) THEN Rv(out, st)
    ELSE LET key == IF ismap THEN VStr(items[i][1]) ELSE VInt(i - 1)
             child == IF ismap THEN items[i][2] ELSE items[i]
             pairs == PairsMerge(base, << <<B("index"), VInt(i - 1)>>, <<B("key"), key>>, <<B("first"), VBool(i = 1)>>, <<B("last"), VBool(i = Len(items))>> >>, 1)
             r == RunProg(env, o.pg, child, VMap(st.id, pairs), <<child, key>>, Fresh(st))
         IN IF r.e # 0 THEN r ELSE EachFrom(env, items, i + 1, o, pairs, out \o r.v, ismap, r.st)

Sv(r) == IF r.e # 0 THEN r ELSE Rv(VStr(r.v), r.st)
Args(argv) == Join(<<44>>, [i \in 1..Len(argv) |-> Show(argv[i])])

(* a call, as the one called sees it *)
MaxLog == 40
LogLine(argv) == B("[INFO] ") \o FlattenSeq([i \in 1..Len(argv) |-> Dump(argv[i], 0) \o <<32>>]) \o <<LF>>
RECURSIVE Bare(_)
Bare(v) == CASE IsArr(v) -> <<"a", [i \in 1..Len(v[3]) |-> Bare(v[3][i])]>>
             [] IsMap(v) -> <<"m", [i \in 1..Len(v[3]) |-> <<v[3][i][1], Bare(v[3][i][2])>>]>>
             [] IsCallable(v) -> <<"f">>
             [] OTHER -> v
Rec(f, argv, o, st) ==
    IF Len(st.log) >= MaxLog THEN st
    ELSE [st EXCEPT !.log = Append(@, <<f, o.name, [i \in 1..Len(argv) |-> Bare(argv[i])], Bare(o.hash), o.pg.t # "none", o.ig.t # "none">>)]

Builtin(env, name, argv, o, st) ==
    LET n == Len(argv)
        \* a function as the subject is called with the current context
        c == IF n = 0 \/ ~IsCallable(argv[1]) THEN Rv(IF n = 0 THEN VNull ELSE argv[1], st) ELSE CallFn(env, argv[1], <<o.scope>>, o, st)
        run(p, ctx, s) == Sv(RunProg(env, p, ctx, env.data, <<>>, s))
    IN CASE name = S_each ->
            IF n < 1 THEN Xe(E_ERROR, st) ELSE IF c.e # 0 THEN c
            ELSE IF ~IsCont(c.v) \/ c.v[3] = <<>> THEN run(o.ig, o.scope, c.st)
            ELSE Sv(EachFrom(env, c.v[3], 1, o,
                            IF IsMap(o.data) THEN PairsUpdate(o.data[3], S_parent, o.data) ELSE <<>>, <<>>, IsMap(c.v), c.st))
         [] name = S_if ->
            IF n # 1 THEN Xe(E_ERROR, st) ELSE IF c.e # 0 THEN c
            ELSE LET iz == MapFind(o.hash, B("includeZero"))
                     yes == Truthy(c.v) \/ (c.v = VInt(0) /\ iz # <<>> /\ Truthy(iz[1]))
                 IN run(IF yes THEN o.pg ELSE o.ig, o.scope, c.st)
         [] name = B("unless") ->
            IF n # 1 THEN Xe(E_ERROR, st) ELSE CallNamed(env, S_if, argv, [o EXCEPT !.pg = o.ig, !.ig = o.pg], st)
         [] name = B("with") ->
            IF n # 1 THEN Xe(E_ERROR, st) ELSE IF c.e # 0 THEN c
            ELSE IF IsNull(c.v) THEN run(o.ig, o.scope, c.st)
            ELSE Sv(RunProg(env, o.pg, c.v, o.data, <<c.v>>, c.st))
         [] name = B("lookup") ->
            IF n < 2 THEN Xe(E_ERROR, st)
            ELSE LET f == IF IsMap(argv[1]) THEN MapFind(argv[1], ToText(argv[2]))
                          ELSE IF IsArr(argv[1]) /\ argv[2][1] = "i" THEN ArrFind(argv[1], argv[2][2]) ELSE <<>>
                 IN Rv(IF f = <<>> THEN VNull ELSE f[1], st)
         [] name = B("log") -> Rv(VNull, [Rec("log", argv, o, st) EXCEPT !.info = @ \o LogLine(argv)])
         [] name = B("hbsc_set_delimiters") ->
            Rv(VNull, IF n = 2 /\ IsStr(argv[1]) /\ IsStr(argv[2]) THEN [st EXCEPT !.d = <<argv[1][2], argv[2][2]>>] ELSE st)
         [] name = S_hm -> IF n # 0 THEN Xe(E_ERROR, st) ELSE Rv(VNull, st)
         [] name = S_bhm ->
            IF n < 1 THEN run(o.ig, o.scope, st)
            ELSE IF argv[1] = VBool(TRUE) THEN run(o.pg, o.scope, st)
            ELSE IF Empty(argv[1]) /\ argv[1] # VInt(0) THEN run(o.ig, o.scope, st)
            ELSE IF IsArr(argv[1]) THEN CallNamed(env, S_each, argv, o, st)
            ELSE run(o.pg, argv[1], st)

(* the functions of the test driver *)
TestFn(env, name, argv, o, st) ==
    LET n == Len(argv)
        run(p, ctx, s) == RunProg(env, p, ctx, env.data, <<>>, s)
    IN CASE name = "echo" -> Rv(VStr(B("echo(") \o Args(argv) \o B(";") \o (IF IsNull(o.hash) THEN <<>> ELSE Show(o.hash)) \o B(")")), st)
         [] name = "opts" -> Rv(VStr(B("opts[") \o o.name \o B("|") \o (IF o.pg.t # "none" THEN B("1") ELSE B("0"))
                                    \o (IF o.ig.t # "none" THEN B("1") ELSE B("0")) \o B("|") \o Show(o.scope) \o B("]")), st)
         [] name = "wrap" -> LET a == run(o.pg, o.scope, st)  b == run(o.ig, o.scope, a.st) IN
                             IF a.e # 0 THEN a ELSE IF b.e # 0 THEN b ELSE Rv(VStr(B("<") \o a.v \o B("|") \o b.v \o B(">")), b.st)
         [] name = "frame" -> IF n < 2 THEN Xe(E_ERROR, st)
                              ELSE Sv(RunProg(env, o.pg, argv[1], VMap(st.id, PairsUpdate(IF IsMap(o.data) THEN o.data[3] ELSE <<>>, B("v"), argv[2])),
                                             <<argv[1], argv[2]>>, Fresh(st)))
         [] name = "safe" -> IF n < 1 THEN Xe(E_ERROR, st) ELSE Rv(<<"ss", ToText(argv[1])>>, st)
         [] name = "ident" -> IF n < 1 THEN Xe(E_ERROR, st) ELSE Rv(argv[1], st)
         [] name = "nul" -> Rv(VNull, st)
         [] name = "list" -> Rv(VArr(st.id, argv), Fresh(st))
         [] name = "obj" -> Rv(o.hash, st)
         [] name = "fail" -> Xe(E_ERROR, st)
         [] name = "lam" -> Rv(VStr(B("lam(") \o Args(argv) \o B(")")), st)
         [] name = "lfalse" -> Rv(VBool(FALSE), st)
         [] name = "larr" -> Rv(VArr(st.id, <<VInt(7), VInt(8)>>), Fresh(st))
         [] name = "rlam" -> LET f == MapFind(o.data, B("rt")) IN Rv(IF f = <<>> THEN VNull ELSE VStr(ToText(f[1])), st)
         [] name = "mlam" -> Rv(VStr(B("<") \o (IF n > 0 THEN ToText(argv[1]) ELSE <<>>) \o B("{{v}}>")), st)

CallFn(env, f, argv, o, st) ==
    CASE f[1] = "hb" -> Builtin(env, f[2], argv, o, st)
      [] f[1] = "f" -> TestFn(env, f[2], argv, o, Rec(f[2], argv, o, st))
      [] f[1] = "pb" ->    \* a partial block runs where it was written
            LET q == f[2]
                e2 == [env EXCEPT !.ctxs = q.ctxs, !.bps = q.bps, !.pbs = q.pbs, !.mod = q.mod, !.kn = q.kn]
                r == RunProg(e2, q.prog, IF argv = <<>> THEN Top(env) ELSE argv[1], env.data, <<>>, st)
            IN IF r.e # 0 THEN r ELSE Rv(VStr(r.v), IF q.mod = env.mod THEN r.st ELSE [r.st EXCEPT !.d = st.d])

-----------------------------------------------------------------------------
(* The machine: instruction i of the program code in state m.  What an instruction takes is off the stack before it calls anything *)
Drop(s, n) == SubSeq(s, 1, Len(s) - n)
IsTrue(o) == o[1] = "b" /\ o[2]
Kid(code, v) == IF v[2] < 0 THEN None ELSE Code(code.kids[v[2] + 1])
(* the call the next instruction makes with what this one looks up, as PathValue takes it *)
Fallback(code, i) == IF i >= Len(code.ops) THEN <<>>
                     ELSE LET x == code.ops[i + 1] IN
                          IF x[1] = "invokeHelper" /\ IsTrue(x[4]) THEN <<x[3][2]>> ELSE IF x[1] = "invokeAmbiguous" THEN <<x[2][2]>> ELSE <<>>
Exec(env, code, st) ==
    LET r == FoldLeft(LAMBDA a, i : IF a.e # 0 THEN a ELSE Instr(env, code, i, a.v, a.st), Rv(M0, st), [i \in 1..Len(code.ops) |-> i]) IN
    IF r.e # 0 THEN r ELSE IF r.v.stk # <<>> \/ r.v.hs # <<>> THEN Xe(E_BALANCE, r.st) ELSE Rv(r.v.out, r.st)
Instr(env0, code, i, m, st) ==
    LET op == code.ops[i]
        nm == op[1]
        N == Len(m.stk)
        \* what the instruction takes: fixed operands, and the arguments
        argc == CASE nm \in {"invokeHelper", "invokeKnownHelper"} -> op[2][2] [] nm \in {"blockValue", "invokePartial"} -> 1
                  [] nm = "ambiguousBlockValue" -> (IF m.fun THEN 0 ELSE 1) [] OTHER -> 0
        call == nm \in {"invokeHelper", "invokeKnownHelper", "invokeAmbiguous", "blockValue", "ambiguousBlockValue", "invokePartial"}
        dyn == nm = "invokePartial" /\ IsTrue(op[2])
        take == CASE nm \in {"append", "appendEscaped", "resolvePossibleLambda", "assignToHash"} -> 1
                  [] nm = "invokeHelper" -> argc + 4 [] nm = "invokeAmbiguous" -> 3
                  [] call -> argc + 3 + (IF dyn THEN 1 ELSE 0) [] OTHER -> 0
        rest == Drop(m.stk, take)
        H == env0.h + N - take
        HH == env0.hh + Len(m.hs)
        env == [env0 EXCEPT !.h = H, !.hh = HH]
        top == m.stk[N]
        go(m2, s) == Rv(m2, s)
        push(v, s) == IF H >= MaxStack THEN Xe(E_STACK, s) ELSE go([m EXCEPT !.stk = Append(rest, v)], s)
        res(r) == IF r.e # 0 THEN r ELSE push(r.v, r.st)
        \* the operands of a call, from the top: [callee], hash, inverse, program, arguments
        b == IF nm = "invokeHelper" THEN N - 1 ELSE N
        argv == SubSeq(m.stk, b - 3 - argc + 1, b - 3)
        hash == m.stk[b]
        pg == Kid(code, m.stk[b - 2])
        ig == Kid(code, m.stk[b - 1])
        opt(name) == Opt(env, hash, pg, ig, name)
        hm == LookupHelper(env, S_hm)[1]
    IN IF N < take \/ (nm \in {"assignToHash", "popHash"} /\ m.hs = <<>>) THEN Xe(E_BALANCE, st)
       ELSE
       CASE nm = "appendContent" -> go([m EXCEPT !.out = @ \o op[2][2]], st)
         [] nm = "append" -> go([m EXCEPT !.stk = rest, !.out = @ \o Text(top, FALSE)], st)
         [] nm = "appendEscaped" -> go([m EXCEPT !.stk = rest, !.out = @ \o Text(top, TRUE)], st)
         [] nm = "getContext" -> go([m EXCEPT !.lctx = CtxAt(env, op[2][2])], st)
         [] nm = "pushContext" -> push(m.lctx, st)
         [] nm = "pushProgram" -> push(VInt(IF op[2] = NoOp THEN 0 - 1 ELSE op[2][2]), st)
         [] nm = "pushLiteral" -> push(IF op[2][1] = "s" /\ op[2][2] \in {S_null, S_undefined} THEN VNull ELSE Operand(op[2]), st)
         [] nm = "pushString" -> push(VStr(op[2][2]), st)
         [] nm = "emptyHash" -> push(VMap(st.id, <<>>), Fresh(st))
         [] nm = "pushHash" -> IF HH >= MaxStack THEN Xe(E_STACK, st) ELSE go([m EXCEPT !.hs = Append(@, VMap(st.id, <<>>))], Fresh(st))
         [] nm = "assignToHash" -> go([m EXCEPT !.stk = rest, !.hs = Append(Drop(@, 1), VMap(LastOf(m.hs)[2], PairsUpdate(LastOf(m.hs)[3], op[2][2], top)))], st)
         [] nm = "popHash" -> IF H >= MaxStack THEN Xe(E_STACK, st) ELSE go([m EXCEPT !.hs = Drop(@, 1), !.stk = Append(@, LastOf(m.hs))], st)
         [] nm = "lookupBlockParam" ->
                LET at == DigitsVal(op[2][2][1], 1, 0)  k == DigitsVal(op[2][2][2], 1, 0)  n == Len(env.bps)
                    lv == IF at >= n THEN <<>> ELSE env.bps[n - at].v
                    w == IF k >= Len(lv) THEN <<>> ELSE Walk(lv[k + 1], op[3][2], 2)
                IN push(IF w = <<>> THEN VNull ELSE w[1], st)
         [] nm = "lookupData" -> res(LookupData(env, [depth |-> op[2][2], parts |-> op[3][2]], IsTrue(op[4]), Fallback(code, i), st))
         [] nm = "lookupOnContext" ->
                IF H >= MaxStack THEN Xe(E_STACK, st)
                ELSE res(WalkCtx(env, IF "compat" \in env.fl /\ ~IsTrue(op[5]) THEN Nearest(env.ctxs, Len(env.ctxs), op[2][2][1]) ELSE m.lctx,
                                 op[2][2], 1, IsTrue(op[4]), Fallback(code, i), st))
         [] nm = "resolvePossibleLambda" ->
                IF ~IsCallable(top) THEN push(top, st)
                ELSE res(CallFn(env, top, <<Top(env)>>, [hash |-> VNull, scope |-> Top(env), data |-> VNull, pg |-> None, ig |-> None, name |-> <<>>], st))
         [] nm = "invokeKnownHelper" ->
                LET f == LookupHelper(env, op[3][2]) IN IF f = <<>> THEN Xe(E_ERROR, st) ELSE res(CallFn(env, f[1], argv, opt(op[3][2]), st))
         [] nm = "invokeHelper" ->
                LET f == LookupHelper(env, op[3][2]) IN
                res(CallFn(env, IF IsTrue(op[4]) /\ f # <<>> THEN f[1] ELSE IF IsCallable(top) THEN top ELSE hm, argv, opt(op[3][2]), st))
         [] nm = "invokeAmbiguous" ->
                LET r == AmbigDo(env, top, op[2][2], Kid(code, m.stk[N - 2]), Kid(code, m.stk[N - 1]), IF op[4][1] = "s" THEN op[4][2] ELSE <<>>, IsTrue(op[3]), st) IN
                IF r.e # 0 THEN r
                ELSE IF H >= MaxStack THEN Xe(E_STACK, r.st)
                ELSE go([m EXCEPT !.stk = Append(rest, r.v[2]), !.fun = r.v[1] = "fun"], r.st)
         [] nm = "blockValue" -> res(CallNamed(env, S_bhm, argv, opt(op[2][2]), st))
         [] nm = "ambiguousBlockValue" -> IF m.fun THEN go([m EXCEPT !.stk = rest], st) ELSE res(CallNamed(env, S_bhm, argv, opt(<<>>), st))
         [] nm = "invokePartial" ->
                LET d == m.stk[N - 4]
                    name == IF dyn THEN IF IsStr(d) THEN <<d[2]>> ELSE <<>> ELSE <<ToText(Operand(op[3]))>>
                    r == PartialDo(env, name, argv[1], hash, pg, op[4][2], st)
                IN IF r.e # 0 THEN r
                   ELSE IF H >= MaxStack THEN Xe(E_STACK, r.st)
                   ELSE go([m EXCEPT !.stk = Append(rest, VNull), !.out = @ \o r.v], r.st)
         [] OTHER -> Xe(E_ERROR, st)       \* instructions the machine does not have

-----------------------------------------------------------------------------
(* a template rendered over data: [e, v] *)
Env0(fl, helpers, partials, dv) ==
    [fl |-> fl, helpers |-> helpers, partials |-> partials, ctxs |-> <<>>, bps |-> <<>>, pbs |-> <<>>, data |-> dv, dep |-> 0, mod |-> 0,
     kn |-> {}, pre |-> <<>>, mach |-> FALSE, h |-> 0, hh |-> 0]
Render(t, input, env) ==
    LET q == PrepareKn(env.fl, env.kn, t, <<>>, <<>>)
        r == RunProg(env, IF env.mach THEN Code(q.c) ELSE q.n, input, env.data, <<>>, [id |-> 1000000, d |-> <<>>, used |-> <<>>, log |-> <<>>, info |-> <<>>])
    IN IF q.e # 0 THEN [e |-> q.e, v |-> <<>>, ph |-> q.ph, used |-> <<>>, log |-> <<>>, info |-> <<>>]
       ELSE [e |-> r.e, v |-> IF r.e = 0 THEN r.v ELSE <<>>, ph |-> "run", used |-> r.st.used, log |-> r.st.log, info |-> r.st.info]
=============================================================================
