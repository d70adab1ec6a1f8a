------------------------------ MODULE CaseMap ------------------------------
(* results of histories on maps *)
EXTENDS HbsMap, CaseLoop
One(c) == [id |-> c.id, r |-> RunOps(MapStep, MapInit, c.ops)]
Next == Step(One)
=============================================================================
