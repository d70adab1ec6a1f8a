------------------------------ MODULE EnumStr ------------------------------
(* All histories of P.max operations taken from P.ops; each is printed with its results and those of the observations P.obs *)
EXTENDS HbsStrings, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES st, hist
vars == <<st, hist>>
Init == st = StrInit(P.init) /\ hist = <<>>
Next == /\ Len(hist) < P.max
        /\ \E k \in 1..Len(P.ops) : st' = StrStep(st, P.ops[k])[1] /\ hist' = Append(hist, k)
Law == \A i \in 1..4 : RoundTrip(st[i], {10, 65, 0, 200})
PrintCase == Len(hist) = P.max => PrintT("RES" \o ToJson([h |-> hist, r |-> RunOps(StrStep, StrInit(P.init), [i \in 1..Len(hist) |-> P.ops[hist[i]]] \o P.obs)]))
View == hist
=============================================================================
