------------------------------ MODULE CaseStr ------------------------------
(* results of histories on strings; TLC checks the round trip of escaping on every string that occurs as an argument *)
EXTENDS HbsStrings, CaseLoop
Laws(c) == \A i \in 1..Len(c.init) : RoundTrip(c.init[i], {10, 13, 65})
One(c) == IF ~Assert(Laws(c), "round trip") THEN 0 ELSE [id |-> c.id, r |-> RunOps(StrStep, StrInit(c.init), c.ops)]
Next == Step(One)
=============================================================================
