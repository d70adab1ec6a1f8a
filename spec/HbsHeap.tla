------------------------------ MODULE HbsHeap ------------------------------
(***************************************************************************)
(* Variables holding values.  A value is what HbsValues says it is and     *)
(* nothing else: assigning copies it, and changing one variable is never   *)
(* seen through another, however the implementation shares memory.  The    *)
(* id of a container is new whenever it is changed: that is what the       *)
(* identity comparison can tell.                                           *)
(***************************************************************************)
EXTENDS HbsMap, HbsValfn

HeapInit(vals) == [v |-> [i \in 1..4 |-> IF i <= Len(vals) THEN vals[i] ELSE VNull], n |-> 100000]
Put(st, i, x) == [st EXCEPT !.v[i] = x]
Arr(st, i, items) == [st EXCEPT !.v[i] = <<"a", st.n, items>>, !.n = @ + 1]
Mp(st, i, pairs) == [st EXCEPT !.v[i] = <<"m", st.n, pairs>>, !.n = @ + 1]
(* as the driver prints it: without ids *)
RECURSIVE Plain(_)
Plain(v) == CASE IsArr(v) -> <<"a", [i \in 1..Len(v[3]) |-> Plain(v[3][i])]>>
              [] IsMap(v) -> <<"m", [i \in 1..Len(v[3]) |-> <<v[3][i][1], Plain(v[3][i][2])>>]>>
              [] IsCallable(v) -> <<"f">>
              [] OTHER -> v
PlainPairs(ps) == [i \in 1..Len(ps) |-> <<ps[i][1], Plain(ps[i][2])>>]
RECURSIVE Times(_, _)
Times(x, n) == IF n <= 0 THEN <<>> ELSE <<x>> \o Times(x, n - 1)
RECURSIVE EachUpd(_, _, _, _, _)
EachUpd(st, i, k, j, n) == IF n = 0 THEN st ELSE EachUpd(Mp(st, i, PairsUpdate(st.v[i][3], k, st.v[j])), i, k, j, n - 1)
RECURSIVE EachSet(_, _, _, _)
EachSet(st, i, j, x) == IF x > Len(st.v[i][3]) THEN st ELSE EachSet(Arr(st, i, [st.v[i][3] EXCEPT ![x] = st.v[j]]), i, j, x + 1)

HeapStep(st, op) ==
    LET p == op[1]
        i == op[2] + 1
        a == st.v[i]
        V(n) == st.v[op[n] + 1]
    IN CASE p = "lit" -> <<Put(st, i, op[3]), <<>>>>
         [] p = "copy" -> <<Put(st, i, V(3)), <<>>>>
         [] p = "push" -> <<IF IsArr(a) THEN Arr(st, i, Append(a[3], V(3))) ELSE st, <<>>>>
         [] p = "fill" -> <<IF ~IsArr(a) \/ op[4] <= 0 THEN st ELSE IF op[3] # op[2] THEN Arr(st, i, a[3] \o Times(V(3), op[4])) ELSE Arr(st, i, Append(a[3], a)), <<>>>>
         [] p = "set" -> IF ~IsArr(a) THEN <<st, <<>>>> ELSE IF op[3] > Len(a[3]) THEN <<st, Err(7)>>
                         ELSE <<Arr(st, i, IF op[3] = Len(a[3]) THEN Append(a[3], V(4)) ELSE [a[3] EXCEPT ![op[3] + 1] = V(4)]), <<>>>>
         [] p \in {"upd", "rawupd"} -> <<IF IsMap(a) THEN Mp(st, i, PairsUpdate(a[3], op[3], V(4))) ELSE st, <<>>>>
         [] p = "rawadd" -> IF ~IsMap(a) THEN <<st, <<>>>> ELSE IF KeyAt(a[3], op[3], 1) # 0 THEN <<st, Err(1)>> ELSE <<Mp(st, i, Append(a[3], <<op[3], V(4)>>)), <<>>>>
         [] p = "del" -> <<IF IsMap(a) THEN Mp(st, i, Without(a[3], op[3])) ELSE st, <<>>>>
         [] p = "sort" -> <<IF IsMap(a) THEN Mp(st, i, SortBy(KeyAsc, a[3])) ELSE st, <<>>>>
         [] p \in {"nth", "nthinto"} -> LET r == ArrFind(a, op[4]) IN <<IF r = <<>> THEN st ELSE Put(st, op[3] + 1, r[1]), <<r # <<>>>>>>
         [] p \in {"get", "getinto"} -> LET r == MapFind(a, op[4]) IN <<IF r = <<>> THEN st ELSE Put(st, op[3] + 1, r[1]), <<r # <<>>>>>>
         [] p = "inner" -> LET r == MapFind(a, op[3]) IN
                           IF r = <<>> \/ ~IsArr(r[1]) THEN <<st, <<>>>>
                           ELSE LET s2 == [st EXCEPT !.n = @ + 1]
                                IN <<Mp(s2, i, PairsUpdate(a[3], op[3], <<"a", st.n, Append(r[1][3], V(4))>>)), <<>>>>
         [] p = "app" -> <<IF IsStr(a) THEN Put(st, i, VStr(a[2] \o op[3])) ELSE st, <<>>>>
         [] p \in {"flag", "mark"} -> <<IF IsStr(a) THEN Put(st, i, <<"ss", a[2]>>) ELSE st, <<>>>>
         [] p = "each_upd" -> IF ~IsMap(a) THEN <<st, <<>>>> ELSE <<EachUpd(st, i, op[3], op[4] + 1, Len(a[3])), PlainPairs(a[3])>>
         [] p = "each_del" -> IF ~IsMap(a) \/ a[3] = <<>> THEN <<st, <<>>>> ELSE <<Mp(st, i, Without(a[3], op[3])), PlainPairs(a[3])>>
         [] p = "each_set" -> IF ~IsArr(a) THEN <<st, <<>>>> ELSE <<EachSet(st, i, op[3] + 1, 1), [x \in 1..Len(a[3]) |-> Plain(a[3][x])]>>
         [] p = "eq" -> <<st, <<ValEq(a, V(3))>>>>
         [] p = "facts" -> <<st, Facts(a, op[3], op[4])>>
         [] p = "conv" -> <<st, <<>>>>
         [] p = "count" -> <<st, <<IF IsCont(a) THEN Len(a[3]) ELSE -1>>>>
         [] p = "all" -> <<st, [x \in 1..4 |-> Plain(st.v[x])]>>

(* frame law: an operation changes the variable it names and no other *)
Target(op) == IF op[1] \in {"nth", "nthinto", "get", "getinto"} THEN op[3] + 1 ELSE op[2] + 1
FrameLaw(st, op) == LET st2 == HeapStep(st, op)[1] IN \A x \in 1..4 : x # Target(op) => st2.v[x] = st.v[x]
=============================================================================
