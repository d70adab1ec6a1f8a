----------------------------- MODULE CaseCache -----------------------------
(* whether observed histories of a cache are behaviours of the specification *)
EXTENDS HbsCache, CaseLoop
One(c) == LET f == Follow(c.par, {CacheInit(c.par)}, c.ops, c.obs, 1) IN [id |-> c.id, ok |-> f.ok, n |-> f.n, want |-> f.want]
Next == Step(One)
=============================================================================
