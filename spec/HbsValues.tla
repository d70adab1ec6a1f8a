------------------------------ MODULE HbsValues ------------------------------
(***************************************************************************)
(* Values: <<"n">>, <<"b", bool>>, <<"i", int>>, <<"d", decimal text>>,    *)
(* <<"I", decimal text>> (an integer of more than 32 bits),                *)
(* <<"s", bytes>>, <<"ss", bytes>> (marked safe), <<"a", id, items>>,      *)
(* <<"m", id, << <<key, value>>.. >> >> (insertion order), <<"f", name>>   *)
(* (function of the embedder), <<"hb", name>> (builtin helper) and         *)
(* <<"pb", closure>> (partial block).  id is the identity of a container.  *)
(***************************************************************************)
EXTENDS HbsBytes

VNull == <<"n">>
VBool(b) == <<"b", b>>
VInt(i) == <<"i", i>>
VStr(s) == <<"s", s>>
VArr(id, items) == <<"a", id, items>>
VMap(id, pairs) == <<"m", id, pairs>>

IsNull(v) == v[1] = "n"
IsStr(v) == v[1] \in {"s", "ss"}
IsMap(v) == v[1] = "m"
IsArr(v) == v[1] = "a"
IsCont(v) == IsMap(v) \/ IsArr(v)
IsCallable(v) == v[1] \in {"f", "hb", "pb"}

Truthy(v) ==
    CASE v[1] = "b" -> v[2]
      [] v[1] = "i" -> v[2] # 0
      [] v[1] = "I" -> TRUE
      [] v[1] = "d" -> v[2] \notin {"0", "-0"}
      [] IsStr(v) -> v[2] \notin {<<>>, <<48>>}
      [] IsCont(v) -> v[3] # <<>>
      [] OTHER -> FALSE
Empty(v) == ~Truthy(v)

Esc(c) == CASE c = 38 -> B("&amp;") [] c = 34 -> B("&quot;") [] c = 39 -> B("&#x27;") [] c = 60 -> B("&lt;") [] c = 62 -> B("&gt;")
            [] c = 96 -> B("&#x60;") [] OTHER -> <<c>>
RECURSIVE HtmlFrom(_, _)
HtmlFrom(s, i) == IF i > Len(s) THEN <<>> ELSE Esc(s[i]) \o HtmlFrom(s, i + 1)
Html(s) == IF SeqRange(s) \cap {38, 34, 39, 60, 62, 96} = {} THEN s ELSE HtmlFrom(s, 1)

(* text of a value written by a mustache *)
RECURSIVE Text(_, _)
Text(v, esc) ==
    CASE v[1] = "b" -> IF v[2] THEN B("true") ELSE B("false")
      [] v[1] = "i" -> IntB(v[2])
      [] v[1] \in {"d", "I"} -> B(v[2])
      [] v[1] = "s" -> IF esc THEN Html(v[2]) ELSE v[2]
      [] v[1] = "ss" -> v[2]
      [] IsArr(v) -> Join(<<44>>, [i \in 1..Len(v[3]) |-> Text(v[3][i], esc)])
      [] OTHER -> <<>>
(* conversion to a string *)
ToText(v) == CASE v[1] = "b" -> IF v[2] THEN B("true") ELSE B("false") [] v[1] = "i" -> IntB(v[2]) [] v[1] \in {"d", "I"} -> B(v[2])
               [] IsStr(v) -> v[2] [] OTHER -> <<>>

(* the same value, as the decision whether a context is a new one sees it *)
ValEq(a, b) ==
    CASE IsStr(a) -> IsStr(b) /\ a[2] = b[2]
      [] a[1] # b[1] -> FALSE
      [] a[1] \in {"b", "i", "I", "d", "f", "hb"} -> a[2] = b[2]
      [] IsCont(a) -> a[2] = b[2]
      [] a[1] = "pb" -> a[2].id = b[2].id
      [] OTHER -> TRUE

KeyAt(pairs, k, i0) == IF \E i \in i0..Len(pairs) : pairs[i][1] = k THEN CHOOSE i \in i0..Len(pairs) : pairs[i][1] = k ELSE 0
PairsUpdate(pairs, k, v) == LET i == KeyAt(pairs, k, 1) IN IF i = 0 THEN Append(pairs, <<k, v>>) ELSE [pairs EXCEPT ![i] = <<k, v>>]
RECURSIVE PairsMerge(_, _, _)
PairsMerge(a, b, i) == IF i > Len(b) THEN a ELSE PairsMerge(PairsUpdate(a, b[i][1], b[i][2]), b, i + 1)
(* <<value>> or <<>> *)
MapFind(v, k) == IF ~IsMap(v) THEN <<>> ELSE LET i == KeyAt(v[3], k, 1) IN IF i = 0 THEN <<>> ELSE <<v[3][i][2]>>
ArrFind(v, n) == IF ~IsArr(v) \/ n < 0 \/ n >= Len(v[3]) THEN <<>> ELSE <<v[3][n + 1]>>
IsIndex(k) == k # <<>> /\ \A i \in 1..Len(k) : k[i] \in Digits
IndexOf(k) == LET z == Span(k, 1, {48}) IN IF Len(k) - z + 1 > 8 THEN 99999999 ELSE DigitsVal(k, z, 0)
(* the member a path segment names *)
Seg(v, k) == IF IsMap(v) THEN MapFind(v, k) ELSE IF IsArr(v) /\ IsIndex(k) THEN ArrFind(v, IndexOf(k)) ELSE <<>>

(* what the test helpers print *)
RECURSIVE Show(_), ShowPairs(_, _)
ShowPairs(ps, i) == IF i > Len(ps) THEN <<>> ELSE (IF i > 1 THEN <<44>> ELSE <<>>) \o ps[i][1] \o <<58>> \o Show(ps[i][2]) \o ShowPairs(ps, i + 1)
Show(v) ==
    CASE v[1] = "n" -> B("n")
      [] v[1] = "b" -> IF v[2] THEN B("t") ELSE B("f")
      [] v[1] = "i" -> B("i") \o IntB(v[2])
      [] v[1] = "I" -> B("i") \o B(v[2])
      [] v[1] = "d" -> B("d") \o B(v[2])
      [] v[1] = "s" -> B("s$") \o v[2] \o B("$")
      [] v[1] = "ss" -> B("S$") \o v[2] \o B("$")
      [] IsArr(v) -> B("[") \o Join(<<44>>, [i \in 1..Len(v[3]) |-> Show(v[3][i])]) \o B("]")
      [] IsMap(v) -> B("{") \o ShowPairs(v[3], 1) \o B("}")
      [] OTHER -> B("F")

(* every line of a text prefixed by an indent; the empty text has no lines *)
RECURSIVE IndentFrom(_, _, _)
IndentFrom(s, i, ind) == LET n == Find(s, i, <<LF>>) IN
    IF n = 0 \/ n = Len(s) THEN Sub(s, i, Len(s)) ELSE Sub(s, i, n) \o ind \o IndentFrom(s, n + 1, ind)
Indent(s, ind) == IF s = <<>> \/ ind = <<>> THEN s ELSE ind \o IndentFrom(s, 1, ind)

(* a value as handlebars_value_dump prints it *)
Blank(n) == [i \in 1..n |-> 32]
RECURSIVE Dump(_, _)
(* the printed form is C text: a string or key ends at a NUL *)
Dump(v, d) ==
    LET row(k, x) == Blank(4 * (d + 1)) \o k \o B(" => ") \o Dump(x, d + 1) \o <<LF>>
        body(rows) == IF rows = <<>> THEN <<>> ELSE <<LF>> \o FlattenSeq(rows) \o Blank(4 * d)
    IN CASE IsNull(v) -> B("NULL")
         [] v[1] = "b" -> IF v[2] THEN B("boolean(true)") ELSE B("boolean(false)")
         [] v[1] = "i" -> B("integer(") \o IntB(v[2]) \o B(")")
         [] v[1] = "I" -> B("integer(") \o B(v[2]) \o B(")")
         [] v[1] = "d" -> B("float(") \o B(v[2]) \o B(")")
         [] IsStr(v) -> B("string(") \o CStr(v[2]) \o B(")")
         [] IsArr(v) -> B("[") \o body([i \in 1..Len(v[3]) |-> row(IntB(i - 1), v[3][i])]) \o B("]")
         [] IsMap(v) -> B("{") \o body([i \in 1..Len(v[3]) |-> row(CStr(v[3][i][1]), v[3][i][2])]) \o B("}")
         [] OTHER -> B("(function, real type 10)")
=============================================================================
