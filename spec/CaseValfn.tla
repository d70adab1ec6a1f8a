----------------------------- MODULE CaseValfn -----------------------------
(* everything that can be asked of given values *)
EXTENDS HbsValfn, CaseLoop
One(c) == IF "vs" \in DOMAIN c THEN [id |-> c.id, r |-> [k \in 1..Len(c.vs) * Len(c.vs) |-> ValEq(c.vs[((k - 1) \div Len(c.vs)) + 1], c.vs[((k - 1) % Len(c.vs)) + 1])]]
          ELSE IF ~Assert(FactLaw(c.v), "FactLaw") THEN 0 ELSE [id |-> c.id, r |-> Facts(c.v, c.keys, c.idx)]
Next == Step(One)
=============================================================================
