------------------------------ MODULE MCFault ------------------------------
(* All programs of P.len steps of P.kinds, attempted P.n times with any faults; the last attempt has none.
   Every history of attempts that can come out of it is printed (P.say = 1). *)
EXTENDS HbsFault, TLC, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
Kinds == {P.kinds[i] : i \in DOMAIN P.kinds}
VARIABLE s
Init == s \in {FaultInit(p) : p \in [1..P.len -> Kinds]}
Next == /\ s.n <= P.n
        /\ IF s.pc = 0 THEN \E k \in (IF s.n = P.n THEN {0} ELSE 0..P.len) : s' = Begin(s, k)
           ELSE s' = FaultStep(s)
Spec == Init /\ [][Next]_s /\ WF_s(Next)
Law == FaultLaw(s)
Last == Len(s.log) = P.n => s.log[P.n].res = "right" /\ ~s.log[P.n].hit
Ends == <>(s.n > P.n)
Say == P.say = 1 /\ s.n > P.n => PrintT("RES" \o ToJson(s.log))
=============================================================================
