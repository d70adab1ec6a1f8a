----------------------------- MODULE EnumLoader -----------------------------
(* All histories of P.max of the operations P.ops on a directory and the partials out of it *)
EXTENDS HbsLoader, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES st, hist
Init == st = LoaderInit /\ hist = <<>>
Next == /\ Len(hist) < P.max
        /\ \E k \in 1..Len(P.ops) : st' = LoaderStep(st, P.ext, P.names, P.ops[k])[1] /\ hist' = Append(hist, k)
(* names are read once; nothing read is forgotten or changed *)
Law == Cardinality({st.seen[i][1] : i \in 1..Len(st.seen)}) = Len(st.seen)
Stable == [][\A i \in 1..Len(st.seen) : i <= Len(st'.seen) /\ st'.seen[i] = st.seen[i]]_<<st, hist>>
PrintCase == Len(hist) = P.max => PrintT("RES" \o ToJson([h |-> hist, r |-> RunLoader(LoaderInit, P.ext, P.names, [i \in 1..Len(hist) |-> P.ops[hist[i]]] \o P.obs, 1, <<>>)]))
View == hist
=============================================================================
