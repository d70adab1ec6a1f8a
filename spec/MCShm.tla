------------------------------- MODULE MCShm -------------------------------
(* Every interleaving of P.n users doing any P.max operations of P.ops each *)
EXTENDS HbsShm, TLC, Json, IOUtils
P == ndJsonDeserialize(IOEnv.PARAMS)[1]
Par == [P.par EXCEPT !.part = [k \in DOMAIN @ |-> [p \in DOMAIN @[k] |-> {@[k][p][i] : i \in DOMAIN @[k][p]}]]]
VARIABLES s, left
vars == <<s, left>>
RECURSIVE Run(_, _, _)
Alone(t) == LET n == Steps(Par, t, 1) IN CHOOSE y \in n : TRUE
RECURSIVE Fin(_)
Fin(t) == IF t.u[1].pc = "end" THEN Ended(t, 1) ELSE Fin(Alone(t))
Run(t, ops, i) == IF i > Len(ops) THEN t ELSE Run(Fin(Begin(t, 1, ops[i])), ops, i + 1)
Init == s = Run(ShmInit(Par, P.n), P.init, 1) /\ left = [u \in 1..P.n |-> P.max]
User(u) == \/ /\ s.u[u].pc = "idle" /\ left[u] > 0
              /\ \E i \in DOMAIN P.ops : (P.ops[i][1] # "rel" \/ s.u[u].held # <<>>) /\ s' = Begin(s, u, P.ops[i])
              /\ left' = [left EXCEPT ![u] = @ - 1]
           \/ s.u[u].pc = "end" /\ s' = Ended(s, u) /\ UNCHANGED left
           \/ s' \in Steps(Par, s, u) /\ UNCHANGED left
Next == \E u \in 1..P.n : User(u)
Spec == Init /\ [][Next]_vars /\ \A u \in 1..P.n : WF_vars(User(u))
Law == ShmLaw(Par, s)
Finished == AllIdle(s) /\ \A u \in 1..P.n : left[u] = 0
Everybody == <>Finished
(* who is equal can be exchanged; counters that only count do not matter *)
View == <<[s EXCEPT !.hits = 0, !.misses = 0, !.coll = 0], left>>
=============================================================================
