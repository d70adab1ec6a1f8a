------------------------------ MODULE HbsTable ------------------------------
(***************************************************************************)
(* The representation of a map: entries in the order they were added       *)
(* (vector, removed ones leave a hole) and an open-addressing table of     *)
(* positions in it (linear probing, removed ones leave a tombstone).  Both *)
(* are rebuilt larger when the vector is full or the table is too loaded.  *)
(* Refinement: for every assignment of hash values, what the table answers *)
(* is what the ordered sequence of pairs says (the ghost variable).        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Hashes, MaxOps, Cap0
Caps == <<5, 11, 23, 53>>
RECURSIVE Pick(_, _)
Pick(t, i) == IF Caps[i] >= t THEN Caps[i] ELSE Pick(t, i + 1)
TableCap(n) == Pick((n * 100) \div 60, 1)
RECURSIVE Pow2Above(_, _)
Pow2Above(n, p) == IF p > n THEN p ELSE Pow2Above(n, p * 2)
VecCap(n) == IF n < 3 THEN 4 ELSE Pow2Above(n, 1)
HOLE == <<"hole">>
VARIABLES hash, vec, vcap, tab, tcap, cnt, ghost, steps
vars == <<hash, vec, vcap, tab, tcap, cnt, ghost, steps>>
EMPTY == 0
TOMB == -1

(* position in a table (a function 0..cap-1) at which a key is found (0 if not), and the first free one *)
RECURSIVE Probe(_, _, _, _, _, _)
Probe(t, cap, v, k, i, free) ==
    IF i >= cap THEN <<-1, free>>
    ELSE LET pos == (hash[k] + i) % cap IN
         IF t[pos] = EMPTY THEN <<-1, IF free = -1 THEN pos ELSE free>>
         ELSE IF t[pos] = TOMB THEN Probe(t, cap, v, k, i + 1, IF free = -1 THEN pos ELSE free)
         ELSE IF v[t[pos]][1] = k THEN <<pos, free>>
         ELSE Probe(t, cap, v, k, i + 1, free)
Lookup(t, cap, v, k) == Probe(t, cap, v, k, 0, -1)

RECURSIVE Rebuild(_, _, _, _)
Rebuild(old, v, t, cap) ==
    IF old = <<>> THEN <<v, t>>
    ELSE IF Head(old) = HOLE THEN Rebuild(Tail(old), v, t, cap)
    ELSE LET v2 == Append(v, Head(old))
             p == Lookup(t, cap, v, Head(old)[1])[2]
         IN Rebuild(Tail(old), v2, [t EXCEPT ![p] = Len(v2)], cap)
Blank(cap) == [i \in 0..(cap - 1) |-> EMPTY]
NeedRehash == Len(vec) = vcap \/ (cnt * 100) \div tcap > 60
(* <<vec, vcap, tab, tcap>> after making room *)
Room(force) ==
    IF ~force /\ ~NeedRehash THEN <<vec, vcap, tab, tcap>>
    ELSE LET want == VecCap(cnt + 1)
             vc == IF want < vcap THEN vcap ELSE want
             tc == TableCap(vc)
             r == Rebuild(vec, <<>>, Blank(tc), tc)
         IN <<r[1], vc, r[2], tc>>

Init == /\ hash \in [Keys -> Hashes]
        /\ vec = <<>> /\ vcap = Cap0 /\ tcap = TableCap(Cap0) /\ tab = Blank(TableCap(Cap0))
        /\ cnt = 0 /\ ghost = <<>> /\ steps = 0

GhostAt(k) == IF \E i \in 1..Len(ghost) : ghost[i][1] = k THEN CHOOSE i \in 1..Len(ghost) : ghost[i][1] = k ELSE 0
Put(k, val) ==
    LET f == Lookup(tab, tcap, vec, k) IN
    IF f[1] # -1
    THEN /\ vec' = [vec EXCEPT ![tab[f[1]]] = <<k, val>>]
         /\ UNCHANGED <<vcap, tab, tcap, cnt>>
         /\ ghost' = [ghost EXCEPT ![GhostAt(k)] = <<k, val>>]
    ELSE LET r == Room(FALSE)
             g == Lookup(r[3], r[4], r[1], k)
         IN /\ Assert(g[2] # -1 /\ Len(r[1]) < r[2], "no room")
            /\ vec' = Append(r[1], <<k, val>>) /\ vcap' = r[2] /\ tcap' = r[4]
            /\ tab' = [r[3] EXCEPT ![g[2]] = Len(r[1]) + 1]
            /\ cnt' = cnt + 1
            /\ ghost' = Append(ghost, <<k, val>>)
Del(k) ==
    LET r == Room((cnt * 100) \div tcap < 10)
        f == Lookup(r[3], r[4], r[1], k)
    IN /\ vcap' = r[2] /\ tcap' = r[4]
       /\ IF f[1] = -1 THEN vec' = r[1] /\ tab' = r[3] /\ UNCHANGED <<cnt, ghost>>
          ELSE /\ vec' = [r[1] EXCEPT ![r[3][f[1]]] = HOLE]
               /\ tab' = [r[3] EXCEPT ![f[1]] = TOMB]
               /\ cnt' = cnt - 1
               /\ ghost' = SelectSeq(ghost, LAMBDA e : e[1] # k)
(* holes closed in place; the table follows *)
Compact ==
    /\ vec' = SelectSeq(vec, LAMBDA e : e # HOLE)
    /\ tab' = [i \in 0..(tcap - 1) |-> IF tab[i] \in {EMPTY, TOMB} THEN tab[i]
                                       ELSE Cardinality({j \in 1..tab[i] : vec[j] # HOLE})]
    /\ UNCHANGED <<vcap, tcap, cnt, ghost>>
Next == /\ steps < MaxOps /\ steps' = steps + 1 /\ UNCHANGED hash
        /\ \/ \E k \in Keys : Put(k, steps)
           \/ \E k \in Keys : Del(k)
           \/ Compact
Refines ==
    /\ SelectSeq(vec, LAMBDA e : e # HOLE) = ghost
    /\ cnt = Len(ghost)
    /\ \A k \in Keys : LET f == Lookup(tab, tcap, vec, k) IN
         IF GhostAt(k) = 0 THEN f[1] = -1 ELSE f[1] # -1 /\ vec[tab[f[1]]] = ghost[GhostAt(k)]
=============================================================================
