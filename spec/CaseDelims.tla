----------------------------- MODULE CaseDelims -----------------------------
(* Expected rewriting of templates: cases have t, open, close. *)
EXTENDS HbsDelims, CaseLoop
One(c) == LET r == Delims(c.t, c.open, c.close) IN [id |-> c.id, ok |-> r.ok, e |-> r.e, s |-> r.s]
Next == Step(One)
=============================================================================
