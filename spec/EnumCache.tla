----------------------------- MODULE EnumCache -----------------------------
(***************************************************************************)
(* The states a cache reaches with the operations P.ops in P.max steps,    *)
(* each with a shortest history that leads to it: with every operation     *)
(* appended these histories cover every transition of the state graph.     *)
(***************************************************************************)
EXTENDS HbsCache, TLC, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
VARIABLES st, hist
vars == <<st, hist>>
Init == st = CacheInit(P.par) /\ hist = <<>>
Room(op) == IF op[1] = "add" THEN {Need(P.par, op) + 8} ELSE {0}
Next == /\ Len(hist) < P.max
        /\ \E k \in 1..Len(P.ops) : \E d \in Room(P.ops[k]) : \E x \in Post(P.par, st, P.ops[k], d) : st' = x[1] /\ hist' = Append(hist, k)
Law == CacheLaw(P.par, st)
PrintCase == PrintT("RES" \o ToJson(hist))
(* statistics that only count do not distinguish states here *)
View == [[st EXCEPT !.hits = 0, !.misses = 0, !.coll = 0] EXCEPT !.now = 0, !.ents = [i \in 1..Len(st.ents) |-> [st.ents[i] EXCEPT !.ts = st.now - @]]]
=============================================================================
