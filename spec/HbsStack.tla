------------------------------ MODULE HbsStack ------------------------------
(***************************************************************************)
(* A stack: a sequence, of which a segment at the bottom may be protected  *)
(* from popping and setting.  Two handles, on one object while shared.     *)
(* A stack in fixed memory never grows beyond its capacity.                *)
(* Errors: 7 overflow, out of bounds, protected; 1 popping a shared stack. *)
(***************************************************************************)
EXTENDS HbsBytes

Err(n) == <<"err", n>>
Obj(fixed, cap) == [s |-> <<>>, p |-> 0, f |-> fixed, c |-> cap]
StackInit(fixed, cap) == [o |-> <<Obj(fixed, cap), Obj(fixed, cap)>>, sh |-> FALSE, sv |-> <<>>]

(* the object of handle h replaced; seen by both handles when they share and it is changed in place *)
InPlace(st, h, x) == IF st.sh THEN [st EXCEPT !.o = <<x, x>>] ELSE [st EXCEPT !.o[h] = x]
(* .. or only by this one *)
Own(st, h, x) == [st EXCEPT !.o[h] = x, !.sh = FALSE]

Push(st, h, v) ==
    LET x == st.o[h] IN
    IF x.f /\ (Len(x.s) >= x.c \/ st.sh) THEN <<st, Err(7)>>
    ELSE <<Own(st, h, [x EXCEPT !.s = Append(@, v)]), <<>>>>
SetAt(st, h, i, v, own) ==
    LET x == st.o[h] IN
    IF i = Len(x.s) THEN Push(st, h, v)
    ELSE IF i > Len(x.s) \/ i < x.p THEN <<st, Err(7)>>
    ELSE IF own THEN <<st, <<>>>>
    ELSE IF st.sh /\ x.f THEN <<st, Err(7)>>
    ELSE <<Own(st, h, [x EXCEPT !.s[i + 1] = v]), <<>>>>
(* pops down to n elements *)
Trunc(st, h, n) ==
    LET x == st.o[h]
        keep == IF n > x.p THEN n ELSE x.p
    IN IF Len(x.s) <= n THEN <<st, <<>>>>
       ELSE IF st.sh THEN <<st, Err(1)>>
       ELSE <<InPlace(st, h, [x EXCEPT !.s = SubSeq(@, 1, Min2(Len(@), keep))]), IF n < x.p THEN Err(7) ELSE <<>>>>

StackStep(st, op) ==
    LET p == op[1]
        h == op[2] + 1
        x == st.o[h]
        n == Len(x.s)
    IN CASE p = "push" -> Push(st, h, op[3])
         [] p = "push_own" -> IF op[3] < n THEN Push(st, h, x.s[op[3] + 1]) ELSE <<st, <<>>>>
         [] p = "set" -> SetAt(st, h, op[3], op[4], FALSE)
         [] p = "set_own" -> IF op[4] < n THEN SetAt(st, h, op[3], x.s[op[4] + 1], op[3] = op[4]) ELSE <<st, <<>>>>
         [] p = "pop" -> IF n = 0 THEN <<st, <<>>>> ELSE IF st.sh THEN <<st, Err(1)>> ELSE IF n <= x.p THEN <<st, Err(7)>>
                         ELSE <<InPlace(st, h, [x EXCEPT !.s = SubSeq(@, 1, n - 1)]), <<x.s[n]>>>>
         [] p = "top" -> <<st, IF n = 0 THEN <<>> ELSE <<x.s[n]>>>>
         [] p = "get" -> <<st, IF op[3] >= n THEN <<>> ELSE <<x.s[op[3] + 1]>>>>
         [] p = "count" -> <<st, <<n>>>>
         [] p = "all" -> <<st, x.s>>
         [] p = "prot" -> <<InPlace(st, h, [x EXCEPT !.p = op[3]]), <<x.p>>>>
         [] p = "trunc" -> Trunc(st, h, op[3])
         [] p = "save" -> IF Len(st.sv) >= 8 THEN <<st, <<>>>>
                          ELSE <<[InPlace(st, h, [x EXCEPT !.p = n]) EXCEPT !.sv = Append(@, <<n, x.p>>)], <<>>>>
         [] p = "restore" -> IF st.sv = <<>> THEN <<st, <<>>>>
                             ELSE LET b == LastOf(st.sv) IN
                                  Trunc([InPlace(st, h, [x EXCEPT !.p = b[2]]) EXCEPT !.sv = Front(@)], h, b[1])
         [] p = "copy" -> <<Own(st, h, [x EXCEPT !.f = FALSE]), <<>>>>
         [] p = "share" -> <<[st EXCEPT !.o = <<x, x>>, !.sh = TRUE], <<>>>>

(* laws: what is below the protected mark never changes except through the other handle's copy *)
Below(x) == SubSeq(x.s, 1, Min2(x.p, Len(x.s)))
ProtLaw(st, st2) == \A h \in 1..2 : st2.o[h].p = st.o[h].p => SubSeq(st2.o[h].s, 1, Len(Below(st.o[h]))) = Below(st.o[h])
CapLaw(st) == \A h \in 1..2 : st.o[h].f => Len(st.o[h].s) <= st.o[h].c
=============================================================================
