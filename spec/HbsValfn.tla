------------------------------ MODULE HbsValfn ------------------------------
(***************************************************************************)
(* Everything that can be asked of one value: its kind, its conversions,   *)
(* members, iteration and printed form.  The answers do not depend on      *)
(* where the value comes from (built, JSON text, YAML text).               *)
(***************************************************************************)
EXTENDS HbsValues

TypeName(v) ==
    CASE IsNull(v) -> "null" [] v[1] = "b" -> IF v[2] THEN "true" ELSE "false" [] v[1] \in {"i", "I"} -> "integer" [] v[1] = "d" -> "float"
      [] IsStr(v) -> "string" [] IsArr(v) -> "array" [] IsMap(v) -> "map" [] OTHER -> "helper"
Count(v) == IF IsCont(v) THEN Len(v[3]) ELSE -1
Each(v) == IF IsArr(v) THEN [i \in 1..Len(v[3]) |-> <<i - 1, <<>>, v[3][i]>>]
           ELSE IF IsMap(v) THEN [i \in 1..Len(v[3]) |-> <<i - 1, <<v[3][i][1]>>, v[3][i][2]>>] ELSE <<>>
Facts(v, keys, idx) == <<
    TypeName(v), Count(v), Truthy(v), Empty(v), IF v[1] \in {"i", "I"} THEN v ELSE VInt(0), IF v[1] = "d" THEN v[2] ELSE "0",
    IF IsStr(v) THEN <<v[2]>> ELSE <<>>, IF IsStr(v) THEN Len(v[2]) ELSE 0, ~IsCont(v) /\ ~IsCallable(v), IsCallable(v),
    ToText(v), B("<&") \o Text(v, TRUE), Text(v, FALSE), Text(v, TRUE),
    Each(v), Len(Each(v)) * Len(Each(v)),
    [i \in 1..2 * Len(keys) |-> MapFind(v, keys[(i + 1) \div 2])],
    [i \in 1..Len(idx) |-> ArrFind(v, idx[i])],
    Dump(v, 0), TRUE, v, v, 0>>

(* laws *)
FactLaw(v) ==
    /\ Truthy(v) # Empty(v)
    /\ IsCont(v) => (Truthy(v) <=> Count(v) > 0)
    /\ \A i \in 1..Len(Each(v)) : IF IsArr(v) THEN ArrFind(v, i - 1) = <<Each(v)[i][3]>> ELSE MapFind(v, Each(v)[i][2][1]) = <<Each(v)[i][3]>>
    /\ Html(Text(v, FALSE)) = Text(v, FALSE) => Text(v, TRUE) = Text(v, FALSE)
=============================================================================
