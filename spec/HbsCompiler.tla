----------------------------- MODULE HbsCompiler -----------------------------
(***************************************************************************)
(* The compiler: syntax tree -> instruction listing.                       *)
(* A listing is [ops, kids, decs, rf, bpc]: opcodes <<name, o1..o4>>, the  *)
(* sub-programs (addressed by position, from 0), decorators, result flags  *)
(* and number of block params.  fl is the set of option names.             *)
(* The compiler state of one program is an accumulator of that shape with  *)
(* an error number; env is [bps, sn, fl]: the block params of the          *)
(* enclosing programs (innermost last) and the depth of the node stack.    *)
(***************************************************************************)
EXTENDS HbsWhitespace

E_UNKNOWN_HELPER == 5
E_PARTIAL_ARGS == 6
E_STACK == 7
MaxNest == 64

NoOp == <<"0">>
OB(b) == <<"b", b>>
OL(n) == <<"l", n>>
OS(s) == <<"s", s>>
OA(a) == <<"a", a>>
Op0(n) == <<n, NoOp, NoOp, NoOp, NoOp>>
Op1(n, a) == <<n, a, NoOp, NoOp, NoOp>>
Op2(n, a, b) == <<n, a, b, NoOp, NoOp>>
Op3(n, a, b, c) == <<n, a, b, c, NoOp>>
Op4(n, a, b, c, d) == <<n, a, b, c, d>>

NewAcc == [ops |-> <<>>, kids |-> <<>>, decs |-> <<>>, rf |-> {}, bpc |-> 0, err |-> 0]
Emit(acc, op) == [acc EXCEPT !.ops = Append(@, op)]
Fail(acc, e) == [acc EXCEPT !.err = e]

Builtins == {B(n) : n \in {"blockHelperMissing", "helperMissing", "each", "if", "unless", "with", "log", "lookup", "hbsc_set_delimiters"}}

IdPart(path) == IF path.t = "path" /\ path.parts # <<>> THEN path.parts[1] ELSE <<>>
HasId(path) == path.t = "path" /\ path.parts # <<>>

NotWordOrEnd(s, i) == IF i > Len(s) THEN TRUE ELSE s[i] \notin WordChars
ScopedId(path) == LET o == CStr(path.orig) IN
    \/ o # <<>> /\ o[1] = 46
    \/ o = S_this
    \/ Len(path.orig) > 4 /\ Find(o, 1, S_this) # 0 /\ NotWordOrEnd(o, Find(o, 1, S_this) + 4)
SimpleId(path) == Len(path.parts) = 1 /\ ~ScopedId(path) /\ path.depth = 0

(* a literal in call position names a field *)
LiteralKinds == {"undef", "null", "bool", "num", "str"}
ToPath(n) == IF n.t \in LiteralKinds THEN [t |-> "path", data |-> FALSE, depth |-> 0, orig |-> n.v, txt |-> n.v, parts |-> <<n.v>>] ELSE n

(* where a block param is declared: <<levels up, which>> or <<>> *)
RECURSIVE BpIndex(_, _, _)
BpIndex(bps, name, i) ==
    IF i >= Len(bps) THEN <<>>
    ELSE LET lv == bps[Len(bps) - i] IN
         IF Len(lv) >= 1 /\ lv[1] = name THEN <<i, 0>>
         ELSE IF Len(lv) >= 2 /\ lv[2] = name THEN <<i, 1>>
         ELSE BpIndex(bps, name, i + 1)
BpLookup(env, path) == IF HasId(path) THEN BpIndex(env.bps, IdPart(path), 0) ELSE <<>>

(* helpers the compiler is told of, beside the builtin ones *)
IsKnown(env, path) == HasId(path) /\ (IdPart(path) \in Builtins \/ IdPart(path) \in env.kn)

Classify(env, path, params, hash, sexpr) ==
    LET simple == SimpleId(path)
        bp == simple /\ BpLookup(env, path) # <<>>
        helper0 == ~bp /\ (sexpr \/ hash.t # "none" \/ params # <<>>)
        elig0 == ~bp /\ (simple \/ helper0)
        known == elig0 /\ ~helper0 /\ IsKnown(env, path)
        elig == elig0 /\ (helper0 \/ known \/ "known_helpers_only" \notin env.fl)
    IN IF helper0 \/ known THEN "helper" ELSE IF elig THEN "ambiguous" ELSE "simple"

-----------------------------------------------------------------------------
(* The tree written out again (the text a lambda section receives).         *)
(* m is {"raw"} inside a raw block.                                         *)
Tl(b) == IF b THEN <<TILDE>> ELSE <<>>
RECURSIVE ToStr(_, _), ToStrs(_, _, _), CallStr(_, _, _, _, _), ParamStrs(_, _, _), PairStrs(_, _, _)
AddSl(s, q) == Replace(Replace(s, <<BSL>>, <<BSL, BSL>>), <<q>>, <<BSL, q>>)
ToStrs(ss, i, m) == IF i > Len(ss) THEN <<>> ELSE ToStr(ss[i], m) \o ToStrs(ss, i + 1, m)
ParamStrs(ps, i, m) == IF i > Len(ps) THEN <<>> ELSE <<SP>> \o ToStr(ps[i], m) \o ParamStrs(ps, i + 1, m)
PairStrs(ps, i, m) == IF i > Len(ps) THEN <<>> ELSE <<SP>> \o ps[i][1] \o B("=") \o ToStr(ps[i][2], m) \o PairStrs(ps, i + 1, m)
HashStr(h, m) == IF h.t = "none" THEN <<>> ELSE PairStrs(h.pairs, 1, m)
CallStr(path, params, hash, nested, m) ==
    (IF nested THEN B("(") ELSE <<>>) \o ToStr(path, m) \o ParamStrs(params, 1, m) \o HashStr(hash, m)
    \o (IF nested THEN B(")") ELSE <<>>)
BpStr(prog) == IF prog.t = "none" \/ prog.bp = <<>> THEN <<>>
               ELSE B(" as |") \o prog.bp[1] \o (IF Len(prog.bp) > 1 THEN <<SP>> \o prog.bp[2] ELSE <<>>) \o B("|")
CloseStr(n, m) == S_dmu \o Tl(n.closeS.l) \o B("/") \o ToStr(n.path, m) \o Tl(n.closeS.r) \o S_close2
ToStr(n, m) ==
    CASE n.t = "none" -> <<>>
      [] n.t = "prog" -> ToStrs(n.ss, 1, m)
      [] n.t = "content" -> IF "raw" \in m THEN n.o ELSE Replace(n.o, S_dmu, <<BSL>> \o S_dmu)
      [] n.t = "comment" -> S_dmu \o Tl(n.st.l) \o B("!") \o (IF n.long THEN S_dd ELSE <<>>) \o n.v
                            \o (IF n.long THEN S_dd ELSE <<>>) \o Tl(n.st.r) \o S_close2
      [] n.t = "mustache" -> S_dmu \o Tl(n.st.l) \o (IF n.unesc = 1 THEN B("{") ELSE IF n.unesc = 3 THEN B("&") ELSE <<>>)
                             \o (IF n.isdec THEN B("*") ELSE <<>>) \o CallStr(n.path, n.params, n.hash, FALSE, m)
                             \o (IF n.unesc = 1 THEN B("}") ELSE <<>>) \o Tl(n.st.r) \o S_close2
      [] n.t = "block" /\ n.prog.t = "none" /\ n.inv.t # "none" ->
            S_dmu \o Tl(n.openS.l) \o B("^") \o CallStr(n.path, n.params, n.hash, FALSE, m) \o Tl(n.openS.r) \o S_close2
            \o ToStr(n.inv, m) \o CloseStr(n, m)
      [] n.t = "block" ->
            S_dmu \o Tl(n.openS.l) \o B("#") \o (IF n.isdec THEN B("*") ELSE <<>>)
            \o CallStr(n.path, n.params, n.hash, FALSE, m) \o BpStr(n.prog) \o Tl(n.openS.r) \o S_close2 \o ToStr(n.prog, m)
            \o (IF n.inv.t # "none" THEN S_dmu \o Tl(n.invS.l) \o B("^") \o Tl(n.invS.r) \o S_close2 \o ToStr(n.inv, m) ELSE <<>>)
            \o CloseStr(n, m)
      [] n.t = "raw" -> S_open4 \o CallStr(n.path, n.params, n.hash, FALSE, m) \o S_close4
                        \o ToStr(n.prog, m \cup {"raw"}) \o S_open4 \o B("/") \o ToStr(n.path, m) \o S_close4
      [] n.t = "partial" -> S_dmu \o Tl(n.st.l) \o B(">") \o ToStr(n.name, m) \o ParamStrs(IF n.params = <<>> THEN <<>> ELSE <<n.params[1]>>, 1, m)
                            \o HashStr(n.hash, m) \o Tl(n.st.r) \o S_close2
      [] n.t = "pblock" -> S_dmu \o Tl(n.openS.l) \o B("#> ") \o ToStr(n.path, m) \o ParamStrs(n.params, 1, m) \o HashStr(n.hash, m)
                           \o Tl(n.openS.r) \o S_close2 \o ToStr(n.prog, m)
                           \o S_dmu \o Tl(n.closeS.l) \o B("/") \o ToStr(n.path, m) \o Tl(n.closeS.r) \o S_close2
      [] n.t = "path" -> n.txt
      [] n.t = "sexpr" -> CallStr(n.path, n.params, n.hash, TRUE, m)
      [] n.t = "str" -> LET q == IF n.single THEN SQ ELSE DQ IN <<q>> \o AddSl(n.v, q) \o <<q>>
      [] n.t \in {"num", "bool"} -> n.v
      [] n.t = "null" -> S_null
      [] n.t = "undef" -> S_undefined

-----------------------------------------------------------------------------
(* numbers: those that are integers become integers *)
RECURSIVE AllDigits(_, _)
AllDigits(s, i) == IF i > Len(s) THEN TRUE ELSE s[i] \in Digits /\ AllDigits(s, i + 1)
(* integers have 64 bits; those of more than 32 are written as text *)
RECURSIVE LessEq(_, _, _)
LessEq(s, m, i) == i > Len(m) \/ s[i] < m[i] \/ (s[i] = m[i] /\ LessEq(s, m, i + 1))
AtMost(s, m) == Len(s) < Len(m) \/ (Len(s) = Len(m) /\ LessEq(s, m, 1))
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IntText(neg, d) == FoldLeft(LAMBDA a, c : a \o Digit[c - 47], IF neg THEN "-" ELSE "", d)
(* the operand for an integer's digits, <<>> when it is out of range *)
IntOp(neg, ds) ==
    LET z == Span(ds, 1, {48})
        d == Sub(ds, z, Len(ds))
    IN IF AtMost(d, B("2147483647")) THEN OL(IF neg THEN 0 - DigitsVal(d, 1, 0) ELSE DigitsVal(d, 1, 0))
       ELSE IF neg /\ d = B("2147483648") THEN OL(-2147483647 - 1)
       ELSE IF AtMost(d, IF neg THEN B("9223372036854775808") ELSE B("9223372036854775807")) THEN <<"L", IntText(neg, d)>>
       ELSE <<>>
(* operand of a number literal: "1.0" is an integer; 0 is one only as "0"; what is no integer, or is out of range, stays text *)
NumOp(v) == LET neg == ChAt(v, 1, 45)
                a == IF neg THEN Tail(v) ELSE v
                d == Find(a, 1, <<46>>)
                ip == IF d = 0 THEN a ELSE Sub(a, 1, d - 1)
                fp == IF d = 0 THEN <<>> ELSE Sub(a, d + 1, Len(a))
                o == IntOp(neg, ip)
            IN IF ip = <<>> \/ ~AllDigits(ip, 1) \/ (\E i \in 1..Len(fp) : fp[i] # 48) \/ o = <<>> \/ o = OL(0) THEN OS(v) ELSE o
LitOp(v) == IF v = B("0") THEN OL(0) ELSE NumOp(v)

(* the integer a number's text starts with *)
IntPrefix(v) == LET neg == ChAt(v, 1, 45)  a == IF neg THEN Tail(v) ELSE v  e == Span(a, 1, Digits)  o == IntOp(neg, Sub(a, 1, e - 1)) IN
                IF o # <<>> THEN o ELSE <<"L", IF neg THEN "-9223372036854775808" ELSE "9223372036854775807">>

TypeName(n) == CASE n.t = "path" -> B("PathExpression") [] n.t = "str" -> B("StringLiteral") [] n.t = "num" -> B("NumberLiteral")
                 [] n.t = "bool" -> B("BooleanLiteral") [] n.t = "null" -> B("NULL") [] n.t = "undef" -> B("UNDEFINED")
                 [] n.t = "sexpr" -> B("SubExpression")
StringValue(n) == CASE n.t = "path" -> n.orig [] n.t = "sexpr" -> <<>> [] OTHER -> n.v

EmptyPath == [t |-> "path", data |-> FALSE, depth |-> 0, orig |-> <<>>, txt |-> <<>>, parts |-> <<>>]

RECURSIVE Accept(_, _, _), AcceptSs(_, _, _, _), PushParams(_, _, _, _), PushParam(_, _, _),
          AcceptSexpr(_, _, _, _), AcceptBlock(_, _, _), AcceptPartial(_, _, _), AcceptDecorator(_, _, _, _), AcceptHash(_, _, _), PushPairs(_, _, _, _),
          Helper(_, _, _, _, _, _, _), Ambiguous(_, _, _, _, _, _)

StrB(n) == IntB(n)

(* path as a value *)
AcceptPath(env, acc0, path, falsy, strict) ==
    LET acc1 == IF path.depth > 0 THEN [acc0 EXCEPT !.rf = @ \cup {"depths"}] ELSE acc0
        acc == Emit(acc1, Op1("getContext", OL(path.depth)))
        scoped == ScopedId(path)
        bp == IF path.depth = 0 /\ ~scoped THEN BpLookup(env, path) ELSE <<>>
    IN IF bp # <<>> THEN Emit(acc, Op2("lookupBlockParam", OA(<<StrB(bp[1]), StrB(bp[2])>>), OA(path.parts)))
       ELSE IF ~HasId(path) THEN Emit(acc, Op0("pushContext"))
       ELSE IF path.data THEN Emit(acc, Op3("lookupData", OL(path.depth), OA(path.parts), IF strict THEN OB(TRUE) ELSE NoOp))
       ELSE Emit(acc, Op4("lookupOnContext", OA(path.parts), IF falsy THEN OB(TRUE) ELSE NoOp, IF strict THEN OB(TRUE) ELSE NoOp, OB(scoped)))

(* accepting a node as a value, on the node stack *)
Enter(env) == [env EXCEPT !.sn = @ + 1]
Deep(env) == env.sn >= MaxNest

AcceptPathNode(env, acc, path, falsy, strict) ==
    IF acc.err # 0 THEN acc ELSE IF Deep(env) THEN Fail(acc, E_STACK) ELSE AcceptPath(env, acc, path, falsy, strict)

(* compile the program node n as a sub-program of acc: <<acc, guid>> *)
Sub1(env, acc, n) ==
    IF acc.err # 0 \/ n.t = "none" THEN <<acc, -1>>
    ELSE LET k == Accept(env, NewAcc, n) IN
         IF k.err # 0 THEN <<Fail(acc, k.err), -1>>
         ELSE <<[acc EXCEPT !.kids = Append(@, k), !.rf = @ \cup (k.rf \ {"decorators"})], Len(acc.kids)>>

PushProgs(acc, pg, ig) ==
    LET a == Emit(acc, IF pg = -1 THEN Op0("pushProgram") ELSE Op1("pushProgram", OL(pg)))
    IN Emit(a, IF ig = -1 THEN Op0("pushProgram") ELSE Op1("pushProgram", OL(ig)))

SlashToDot(s) == [i \in 1..Len(s) |-> IF s[i] = 47 THEN 46 ELSE s[i]]
TrackValue(s0) ==   \* the path text an id operand carries
    LET s == CStr(s0)
        a == IF HasAt(s, 1, S_this) THEN Sub(s, IF ChAt(s, 5, 46) \/ ChAt(s, 5, 36) THEN 6 ELSE 5, Len(s)) ELSE s
    IN IF a = S_dot THEN <<>> ELSE IF HasAt(a, 1, B("./")) THEN Sub(a, 3, Len(a)) ELSE a

PushParam(env, acc, n) ==
    IF acc.err # 0 THEN acc
    ELSE IF "string_params" \in env.fl
    THEN LET d == IF n.t = "path" THEN n.depth ELSE 0
             a0 == IF d > 0 THEN [acc EXCEPT !.rf = @ \cup {"depths"}] ELSE acc
             a == Emit(a0, Op1("getContext", OL(d)))
             sv == StringValue(n)
             v == IF n.t = "bool" THEN OB(sv = S_true) ELSE OS(SlashToDot(LTrim(sv, {46, 47})))
             b == Emit(a, Op2("pushStringParam", v, OS(TypeName(n))))
         IN IF n.t = "sexpr" THEN Accept(env, b, n) ELSE b
    ELSE LET bp == IF n.t = "path" /\ HasId(n) /\ ~ScopedId(n) /\ n.depth = 0 THEN BpLookup(env, n) ELSE <<>>
             tv == TrackValue(StringValue(n))
             a == IF "track_ids" \notin env.fl THEN acc
                  ELSE IF bp # <<>> THEN Emit(acc, Op3("pushId", OS(B("BlockParam")), OA(<<StrB(bp[1]), StrB(bp[2])>>), OS(Join(<<46>>, Tail(n.parts)))))
                  ELSE Emit(acc, Op2("pushId", OS(TypeName(n)),
                              CASE n.t = "bool" -> OB(tv = S_true) [] n.t = "num" -> IntPrefix(tv) [] OTHER -> OS(tv)))
         IN Accept(env, a, n)

PushParams(env, acc, ps, i) == IF i > Len(ps) \/ acc.err # 0 THEN acc ELSE PushParams(env, PushParam(env, acc, ps[i]), ps, i + 1)

PushPairs(env, acc, ps, i) == IF i > Len(ps) \/ acc.err # 0 THEN acc ELSE PushPairs(env, PushParam(env, acc, ps[i][2]), ps, i + 1)
RECURSIVE AssignKeys(_, _, _)
AssignKeys(acc, ps, i) == IF i = 0 THEN acc ELSE AssignKeys(Emit(acc, Op1("assignToHash", OS(ps[i][1]))), ps, i - 1)
AcceptHash(env, acc, h) ==
    LET a == PushPairs(env, Emit(acc, Op0("pushHash")), h.pairs, 1) IN
    IF a.err # 0 THEN a ELSE Emit(AssignKeys(a, h.pairs, Len(h.pairs)), Op0("popHash"))

(* parameters, programs and hash of a call *)
Setup(env, acc, params, hash, pg, ig, omitEmpty) ==
    LET a == PushParams(env, acc, params, 1) IN
    IF a.err # 0 THEN a
    ELSE LET b == PushProgs(a, pg, ig) IN
         IF hash.t # "none" THEN Accept(env, b, hash)
         ELSE Emit(b, IF omitEmpty THEN Op1("emptyHash", OB(TRUE)) ELSE Op0("emptyHash"))

Helper(env, acc, path, params, hash, pg, ig) ==
    LET a == Setup(env, acc, params, hash, pg, ig, FALSE) IN
    IF a.err # 0 THEN a
    ELSE IF IsKnown(env, path) THEN Emit(a, Op2("invokeKnownHelper", OL(Len(params)), OS(IdPart(path))))
    ELSE IF "known_helpers_only" \in env.fl THEN Fail(a, E_UNKNOWN_HELPER)
    ELSE LET b == AcceptPathNode(env, a, path, TRUE, TRUE) IN
         IF b.err # 0 THEN b ELSE Emit(b, Op3("invokeHelper", OL(Len(params)), OS(path.orig), OB(SimpleId(path))))

Ambiguous(env, acc, path, pg, ig, text) ==
    LET a == PushProgs(Emit(acc, Op1("getContext", OL(path.depth))), pg, ig)
        b == AcceptPathNode(env, a, path, FALSE, TRUE)
    IN IF b.err # 0 THEN b
       ELSE Emit(b, Op3("invokeAmbiguous", OS(IdPart(path)), OB(pg >= 0 \/ ig >= 0),
                        IF "mustache_style_lambdas" \in env.fl THEN OS(text) ELSE NoOp))

Simple(env, acc, path) ==
    LET a == AcceptPathNode(env, acc, path, FALSE, TRUE) IN
    IF a.err # 0 THEN a ELSE Emit(a, Op0("resolvePossibleLambda"))

(* a call as a value: mustache or subexpression *)
AcceptSexpr(env, acc, n, sexpr) ==
    LET path == ToPath(n.path) IN
    CASE Classify(env, path, n.params, n.hash, sexpr) = "helper" -> Helper(env, acc, path, n.params, n.hash, -1, -1)
      [] Classify(env, path, n.params, n.hash, sexpr) = "simple" -> Simple(env, acc, path)
      [] OTHER -> Ambiguous(env, acc, path, -1, -1, <<>>)

AcceptDecorator(env, acc, n, pg) ==
    LET alt == "alternate_decorators" \in env.fl
        sub == Setup(env, IF alt THEN NewAcc ELSE [acc EXCEPT !.rf = @ \cup {"decorators"}], n.params, n.hash, pg, -1, FALSE)
        reg == Emit(sub, Op2("registerDecorator", OL(Len(n.params)), OS(NameText(n.path))))
    IN IF sub.err # 0 THEN Fail(acc, sub.err)
       ELSE IF alt THEN [acc EXCEPT !.decs = Append(@, reg), !.rf = @ \cup {"decorators"}] ELSE reg

AcceptBlock(env, acc, n) ==
    LET raw == n.t = "raw"
        path == ToPath(n.path)
        s1 == Sub1(env, acc, n.prog)
    IN IF s1[1].err # 0 THEN s1[1]
       ELSE IF ~raw /\ n.isdec THEN AcceptDecorator(env, s1[1], n, s1[2])
       ELSE LET s2 == Sub1(env, s1[1], n.inv)
                pg == s1[2]
                ig == s2[2]
                a == s2[1]
                kind == Classify(env, path, n.params, n.hash, FALSE)
                text == IF raw \/ n.prog.t = "none" \/ "mustache_style_lambdas" \notin env.fl THEN <<>> ELSE ToStr(n.prog, {})
            IN IF a.err # 0 THEN a
               ELSE CASE kind = "helper" ->
                         LET b == Helper(env, a, path, n.params, n.hash, pg, ig) IN IF b.err # 0 THEN b ELSE Emit(b, Op0("append"))
                      [] kind = "simple" ->
                         LET b == Simple(env, a, path) IN IF b.err # 0 THEN b
                         ELSE Emit(Emit(Emit(PushProgs(b, pg, ig), Op0("emptyHash")), Op1("blockValue", OS(path.orig))), Op0("append"))
                      [] OTHER ->
                         LET b == Ambiguous(env, a, path, pg, ig, text) IN IF b.err # 0 THEN b
                         ELSE Emit(Emit(Emit(PushProgs(b, pg, ig), Op0("emptyHash")), Op0("ambiguousBlockValue")), Op0("append"))

AcceptPartial(env, acc0, n) ==
    LET block == n.t = "pblock"
        name == IF block THEN n.path ELSE n.name
        acc == [acc0 EXCEPT !.rf = @ \cup {"partial"}]
        expl == "explicit_partial_context" \in env.fl
        none == n.params = <<>>
        params == IF none /\ ~expl THEN <<EmptyPath>> ELSE n.params
        dyn == name.t = "sexpr"
        a1 == IF dyn THEN Accept(env, acc, name) ELSE acc
        a2 == IF none /\ expl THEN Emit(a1, Op1("pushLiteral", OS(S_undefined))) ELSE a1
        s == Sub1(env, a2, IF block THEN n.prog ELSE None)
        a3 == IF s[1].err # 0 THEN s[1] ELSE Setup(env, s[1], params, n.hash, s[2], -1, TRUE)
        indent == IF block THEN <<>> ELSE n.indent
        prevent == "prevent_indent" \in env.fl /\ indent # <<>>
        a4 == IF prevent THEN Emit(a3, Op1("appendContent", OS(indent))) ELSE a3
        nameOp == IF dyn THEN NoOp ELSE IF name.t = "num" THEN NumOp(name.v) ELSE OS(StringValue(name))
    IN IF Len(n.params) > 1 THEN Fail(acc, E_PARTIAL_ARGS)
       ELSE IF a3.err # 0 THEN a3
       ELSE Emit(Emit(a4, Op3("invokePartial", OB(dyn), nameOp, OS(IF prevent THEN <<>> ELSE indent))), Op0("append"))

AcceptSs(env, acc, ss, i) == IF i > Len(ss) \/ acc.err # 0 THEN acc ELSE AcceptSs(env, Accept(env, acc, ss[i]), ss, i + 1)

AcceptProg(env, acc, p) ==
    IF Len(env.bps) >= MaxNest THEN Fail(acc, E_STACK)
    ELSE LET a == AcceptSs([env EXCEPT !.bps = Append(@, p.bp)], acc, p.ss, 1) IN
         IF a.err # 0 THEN a
         ELSE [a EXCEPT !.rf = IF Len(p.ss) = 1 THEN @ \cup {"simple"} ELSE @, !.bpc = @ + Len(p.bp)]

Accept(env0, acc, n) ==
    IF acc.err # 0 \/ n.t = "none" THEN acc
    ELSE IF Deep(env0) THEN Fail(acc, E_STACK)
    ELSE
    LET env == Enter(env0) IN
    CASE n.t = "prog" -> AcceptProg(env, acc, n)
      [] n.t = "content" -> IF n.v = <<>> THEN acc ELSE Emit(acc, Op1("appendContent", OS(n.v)))
      [] n.t = "comment" -> acc
      [] n.t = "mustache" ->
            IF n.isdec THEN AcceptDecorator(env, acc, n, -1)
            ELSE LET a == AcceptSexpr(env, acc, n, FALSE) IN
                 IF a.err # 0 THEN a
                 ELSE Emit(a, Op0(IF n.unesc = 0 /\ "no_escape" \notin env.fl THEN "appendEscaped" ELSE "append"))
      [] n.t \in {"block", "raw"} -> AcceptBlock(env, acc, n)
      [] n.t \in {"partial", "pblock"} -> AcceptPartial(env, acc, n)
      [] n.t = "sexpr" -> AcceptSexpr(env, acc, n, TRUE)
      [] n.t = "path" -> AcceptPath(env, acc, n, FALSE, FALSE)
      [] n.t = "hash" -> AcceptHash(env, acc, n)
      [] n.t = "str" -> Emit(acc, Op1("pushString", OS(n.v)))
      [] n.t = "num" -> Emit(acc, Op1("pushLiteral", LitOp(n.v)))
      [] n.t = "bool" -> Emit(acc, Op1("pushLiteral", OB(n.v # S_false)))
      [] n.t = "null" -> Emit(acc, Op1("pushLiteral", OS(S_null)))
      [] n.t = "undef" -> Emit(acc, Op1("pushLiteral", OS(S_undefined)))

(* whole template *)
CompileKn(ast, fl, kn) == Accept([bps |-> <<>>, sn |-> 0, fl |-> fl, kn |-> kn], NewAcc, ast)
Compile(ast, fl) == CompileKn(ast, fl, {})

RfNum(rf) == (IF "depths" \in rf THEN 1 ELSE 0) + (IF "partial" \in rf THEN 2 ELSE 0) + (IF "simple" \in rf THEN 4 ELSE 0)
             + (IF "decorators" \in rf THEN 8 ELSE 0)
RECURSIVE Listing(_)
Listing(p) == <<p.bpc, RfNum(p.rf), p.ops, [i \in 1..Len(p.kids) |-> Listing(p.kids[i])], [i \in 1..Len(p.decs) |-> Listing(p.decs[i])]>>

FlagNames == <<"compat", "string_params", "track_ids", "no_escape", "known_helpers_only", "prevent_indent", "use_data", "explicit_partial_context",
               "ignore_standalone", "alternate_decorators", "strict", "assume_objects", "mustache_style_lambdas">>
RECURSIVE FlagSet(_, _)
FlagSet(n, i) == IF i > Len(FlagNames) THEN {} ELSE (IF n % 2 = 1 THEN {FlagNames[i]} ELSE {}) \cup FlagSet(n \div 2, i + 1)
Flags(n) == FlagSet(n, 1)
=============================================================================
