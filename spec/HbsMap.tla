------------------------------- MODULE HbsMap -------------------------------
(***************************************************************************)
(* What a map is to its user: a sequence of key/value pairs with distinct  *)
(* keys, in the order in which the keys were first added.  Two handles,    *)
(* which may share a map; operations on one are not seen through the       *)
(* other.  Values are integers.  An operation is <<name, handle, ..>>.     *)
(***************************************************************************)
EXTENDS HbsValues, FiniteSets, SequencesExt

Err(n) == <<"err", n>>
RECURSIVE BytesLess(_, _, _)
BytesLess(a, b, i) == IF i > Len(a) THEN i <= Len(b) ELSE IF i > Len(b) THEN FALSE
                      ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BytesLess(a, b, i + 1)
SortBy(less(_, _), s) == SortSeq(s, less)
KeyAsc(x, y) == BytesLess(x[1], y[1], 1)
KeyDesc(x, y) == BytesLess(y[1], x[1], 1)
ValAsc(x, y) == x[2][2] < y[2][2]

Without(ps, k) == SelectSeq(ps, LAMBDA x : x[1] # k)

MapMutators == {"add", "upd", "del", "sadd", "supd", "sdel", "upd_own", "del_own", "sort", "sortd", "sortv", "compact", "rehash", "copy", "share"}
(* <<pairs of both handles, result>> *)
MapStep(st, op) ==
    LET p == op[1]
        h == op[2] + 1
        m == st[h]
        k == op[3]
        at == KeyAt(m, k, 1)
        Set(m2) == <<[st EXCEPT ![h] = m2], <<>>>>
    IN CASE p \in {"add", "sadd"} -> IF at # 0 THEN <<st, Err(1)>> ELSE Set(Append(m, <<k, VInt(op[4])>>))
         [] p \in {"upd", "supd"} -> Set(PairsUpdate(m, k, VInt(op[4])))
         [] p \in {"del", "sdel", "del_own"} -> Set(Without(m, k))
         [] p = "upd_own" -> LET o == KeyAt(m, op[5], 1) IN IF o = 0 THEN <<st, <<>>>> ELSE Set(PairsUpdate(m, k, m[o][2]))
         [] p \in {"get", "sget"} -> <<st, IF at = 0 THEN <<>> ELSE <<m[at][2]>>>>
         [] p = "count" -> <<st, <<Len(m)>>>>
         [] p \in {"each", "veach"} -> <<st, m>>
         [] p = "at" -> <<st, IF op[3] >= Len(m) THEN Err(1) ELSE m[op[3] + 1]>>
         [] p = "sort" -> Set(SortBy(KeyAsc, m))
         [] p = "sortd" -> Set(SortBy(KeyDesc, m))
         [] p = "sortv" -> Set(SortBy(ValAsc, m))
         [] p = "compact" -> <<st, <<FALSE>>>>
         [] p \in {"rehash", "copy"} -> <<st, <<>>>>
         [] p = "share" -> <<<<m, m>>, <<>>>>

MapInit == <<<<>>, <<>>>>
(* laws: keys stay distinct; what is found is what is iterated *)
KeysDistinct(m) == Cardinality({m[i][1] : i \in 1..Len(m)}) = Len(m)
=============================================================================
