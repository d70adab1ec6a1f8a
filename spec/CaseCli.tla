------------------------------ MODULE CaseCli -------------------------------
(* Outcomes of runs of the program. *)
EXTENDS HbsCli, CaseLoop
One(c) == [id |-> c.id, r |-> Cli(c)]
Next == Step(One)
=============================================================================
