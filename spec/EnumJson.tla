----------------------------- MODULE EnumJson -----------------------------
(***************************************************************************)
(* JSON documents as sequences of tokens, all of them up to a length, with *)
(* the value they denote.  The parser is the JSON grammar with what the    *)
(* JSON library tolerates: a comma after the last member, anything after   *)
(* the end of the document.                                                *)
(***************************************************************************)
EXTENDS HbsValfn, Json, IOUtils, FiniteSets

P == ndJsonDeserialize(IOEnv.PARAMS)[1]   \* toks: texts of scalar tokens with their values; max
Punct == <<B("["), B("]"), B("{"), B("}"), B(","), B(":")>>
NTok == 6 + Len(P.toks)
TokText(k) == IF k <= 6 THEN Punct[k] ELSE P.toks[k - 6].s
IsScalar(k) == k > 6
IsKey(k) == k > 6 /\ P.toks[k - 6].v[1] = "s"

(* <<status, value, next position>>: status "ok", "more" (ends too early) or "err" *)
RECURSIVE Val(_, _, _), Arr(_, _, _, _), Obj(_, _, _, _)
Val(t, i, id) ==
    IF i > Len(t) THEN <<"more", VNull, i>>
    ELSE IF IsScalar(t[i]) THEN <<"ok", P.toks[t[i] - 6].v, i + 1>>
    ELSE IF t[i] = 1 THEN Arr(t, i + 1, id, <<>>)
    ELSE IF t[i] = 3 THEN Obj(t, i + 1, id, <<>>)
    ELSE <<"err", VNull, i>>
Arr(t, i, id, items) ==
    IF i > Len(t) THEN <<"more", VNull, i>>
    ELSE IF t[i] = 2 THEN <<"ok", VArr(id, items), i + 1>>
    ELSE LET x == Val(t, i, id * 10 + Len(items) + 1) IN
         IF x[1] # "ok" THEN x
         ELSE IF x[3] > Len(t) THEN <<"more", VNull, i>>
         ELSE IF t[x[3]] = 5 THEN Arr(t, x[3] + 1, id, Append(items, x[2]))
         ELSE IF t[x[3]] = 2 THEN Arr(t, x[3], id, Append(items, x[2]))
         ELSE <<"err", VNull, i>>
Obj(t, i, id, ps) ==
    IF i > Len(t) THEN <<"more", VNull, i>>
    ELSE IF t[i] = 4 THEN <<"ok", VMap(id, ps), i + 1>>
    ELSE IF ~IsKey(t[i]) THEN <<"err", VNull, i>>
    ELSE IF i + 1 > Len(t) THEN <<"more", VNull, i>>
    ELSE IF t[i + 1] # 6 THEN <<"err", VNull, i>>
    ELSE LET x == Val(t, i + 2, id * 10 + Len(ps) + 1) IN
         IF x[1] # "ok" THEN x
         ELSE IF x[3] > Len(t) THEN <<"more", VNull, i>>
         ELSE LET q == PairsUpdate(ps, P.toks[t[i] - 6].v[2], x[2]) IN
              IF t[x[3]] = 5 THEN Obj(t, x[3] + 1, id, q)
              ELSE IF t[x[3]] = 4 THEN Obj(t, x[3], id, q)
              ELSE <<"err", VNull, i>>
Parse(t) == Val(t, 1, 1)

VARIABLE doc
Init == doc = <<>>
(* a document that is complete or wrong is not continued but by one token *)
Open(t) == t = <<>> \/ Parse(t)[1] = "more"
Next == /\ Len(doc) < P.max
        /\ Open(doc) \/ (Len(doc) > 0 /\ Len(doc) < 4 /\ Open(Front(doc)))
        /\ \E k \in 1..NTok : doc' = Append(doc, k)
(* laws: what is once wrong or complete stays so, and the tokens of a complete document balance *)
Nest(t, i) == Cardinality({j \in 1..i : t[j] \in {1, 3}}) - Cardinality({j \in 1..i : t[j] \in {2, 4}})
Law ==
    LET r == Parse(doc) IN
    /\ (Len(doc) > 0 /\ ~Open(Front(doc))) => (r[1] = Parse(Front(doc))[1] /\ r[2] = Parse(Front(doc))[2])
    /\ r[1] = "ok" => Nest(doc, r[3] - 1) = 0
    /\ r[1] = "ok" => FactLaw(r[2])
PrintCase == LET r == Parse(doc) IN
    PrintT("RES" \o ToJson([t |-> Join(B(" "), [i \in 1..Len(doc) |-> TokText(doc[i])]), ok |-> r[1] = "ok", v |-> r[2],
                            r |-> IF r[1] = "ok" THEN Facts(r[2], P.keys, P.idx) ELSE <<>>]))
=============================================================================
