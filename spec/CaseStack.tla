----------------------------- MODULE CaseStack -----------------------------
(* results of histories on stacks *)
EXTENDS HbsStack, CaseLoop
One(c) == [id |-> c.id, r |-> RunOps(StackStep, StackInit(c.fixed = 1, c.cap), c.ops)]
Next == Step(One)
=============================================================================
