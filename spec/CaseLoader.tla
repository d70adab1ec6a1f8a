----------------------------- MODULE CaseLoader -----------------------------
(* results of histories on a directory of partials *)
EXTENDS HbsLoader, CaseLoop
One(c) == [id |-> c.id, r |-> RunLoader(LoaderInit, c.ext, c.names, c.ops, 1, <<>>)]
Next == Step(One)
=============================================================================
