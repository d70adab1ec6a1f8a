------------------------------ MODULE EnumStack ------------------------------
(* All histories of P.max operations taken from P.ops; each is printed with its results and those of the observations P.obs *)
EXTENDS HbsStack, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES st, hist
vars == <<st, hist>>
Init == st = StackInit(P.fixed = 1, P.cap) /\ hist = <<>>
Next == /\ Len(hist) < P.max
        /\ \E k \in 1..Len(P.ops) : st' = StackStep(st, P.ops[k])[1] /\ hist' = Append(hist, k)
Law == CapLaw(st) /\ \A k \in 1..Len(P.ops) : P.ops[k][1] # "share" => LET r == StackStep(st, P.ops[k])[1] IN ProtLaw(st, r)
PrintCase == Len(hist) = P.max => PrintT("RES" \o ToJson([h |-> hist, r |-> RunOps(StackStep, StackInit(P.fixed = 1, P.cap), [i \in 1..Len(hist) |-> P.ops[hist[i]]] \o P.obs)]))
View == hist
=============================================================================
