------------------------------ MODULE CaseShm ------------------------------
(***************************************************************************)
(* Whether recorded histories are histories of HbsShm: what was visible    *)
(* (operations beginning and ending, statistics at rest) is given, the     *)
(* accesses in between are found.  A history is accepted when some         *)
(* behaviour explains it to its end; Reach prints how far each was         *)
(* explained when asked to.                                                *)
(***************************************************************************)
EXTENDS HbsShm, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, s
vars == <<c, i, s>>
Set(q) == {q[j] : j \in DOMAIN q}
ParOf(x) == [x.par EXCEPT !.part = [k \in DOMAIN @ |-> [p \in DOMAIN @[k] |-> Set(@[k][p])]]]
Init == \E n \in DOMAIN Cases : c = n /\ i = 1 /\ s = ShmInit(ParOf(Cases[n]), Cases[n].users)
Ev == Cases[c].h[i]
More == i <= Len(Cases[c].h)
Visible ==
    /\ More
    /\ i' = i + 1 /\ UNCHANGED c
    /\ CASE Ev[1] = "b" -> s.u[Ev[2]].pc = "idle" /\ s' = Begin(s, Ev[2], Ev[3])
         [] Ev[1] = "e" -> s.u[Ev[2]].pc = "end" /\ s.u[Ev[2]].res = Ev[3] /\ s' = Ended(s, Ev[2])
         [] Ev[1] = "q" -> AllIdle(s) /\ Stat(s) = <<Ev[2], Ev[3], Ev[4], Ev[5], Ev[6]>> /\ s' = s
         [] OTHER -> FALSE
    /\ (IF i' > Len(Cases[c].h) THEN PrintT("RES" \o ToJson([id |-> Cases[c].id])) ELSE TRUE)
    /\ (IF IOEnv.REACH = "1" THEN PrintT("RES" \o ToJson([id |-> Cases[c].id, at |-> i])) ELSE TRUE)
Hidden == /\ More
          /\ UNCHANGED <<c, i>>
          /\ \E u \in Users(s) : s' \in Steps(ParOf(Cases[c]), s, u)
Next == Visible \/ Hidden
=============================================================================
