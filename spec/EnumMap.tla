------------------------------ MODULE EnumMap ------------------------------
(* All histories of P.max operations taken from P.ops; each is printed with its results and those of the observations P.obs *)
EXTENDS HbsMap, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES st, hist
vars == <<st, hist>>
Init == st = MapInit /\ hist = <<>>
Next == /\ Len(hist) < P.max
        /\ \E k \in 1..Len(P.ops) : st' = MapStep(st, P.ops[k])[1] /\ hist' = Append(hist, k)
Law == \A h \in 1..2 : KeysDistinct(st[h])
PrintCase == Len(hist) = P.max => PrintT("RES" \o ToJson([h |-> hist, r |-> RunOps(MapStep, MapInit, [i \in 1..Len(hist) |-> P.ops[hist[i]]] \o P.obs)]))
View == hist
=============================================================================
