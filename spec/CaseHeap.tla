------------------------------ MODULE CaseHeap ------------------------------
(* results of histories on variables holding values *)
EXTENDS HbsHeap, CaseLoop
One(c) == [id |-> c.id, r |-> RunOps(HeapStep, HeapInit(c.init), c.ops)]
Next == Step(One)
=============================================================================
