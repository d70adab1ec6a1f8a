------------------------------ MODULE EnumHeap ------------------------------
(* All histories of P.max operations taken from P.ops; each is printed with its results and those of the observations P.obs *)
EXTENDS HbsHeap, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES st, hist
vars == <<st, hist>>
Init == st = HeapInit(P.init) /\ hist = <<>>
Next == /\ Len(hist) < P.max
        /\ \E k \in 1..Len(P.ops) : st' = HeapStep(st, P.ops[k])[1] /\ hist' = Append(hist, k)
Law == \A k \in 1..Len(P.ops) : FrameLaw(st, P.ops[k])
PrintCase == Len(hist) = P.max => PrintT("RES" \o ToJson([h |-> hist, r |-> RunOps(HeapStep, HeapInit(P.init), [i \in 1..Len(hist) |-> P.ops[hist[i]]] \o P.obs)]))
View == hist
=============================================================================
