------------------------------- MODULE HbsShm -------------------------------
(***************************************************************************)
(* The protocol by which users of one shared-memory cache look programs    *)
(* up, store them and clear the memory, one access to the shared memory at *)
(* a time.  Users are numbered from 1; a user runs one operation at a time *)
(*    <<"find", k>>  <<"rel">>  <<"add", k, p>>  <<"reset">>  <<"tick", n>> *)
(* (release of the program found last; tick lets time pass for all).       *)
(*                                                                         *)
(* Steps(par, s, u) is the set of states user u may lead the system to by  *)
(* its next access.  Beginning and ending an operation are steps of their  *)
(* own (Begin, Ended): they are what is visible in a recorded history.     *)
(*                                                                         *)
(* The shared memory is a set of entries, each with the bytes at .. to it  *)
(* occupies; writing over an entry removes it, so that "still there" is    *)
(* "nobody has written over it".  par.need[k][p] is the room entry (k, p)  *)
(* takes, par.part[k][p] the rooms a failed attempt may leave used, slot   *)
(* the place in the table, dsize the room there is, age the life time.     *)
(* par.bug names a protocol that is wrong (for testing the laws).          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

User0 == [pc |-> "idle", op |-> <<>>, res |-> <<>>, e |-> 0, held |-> <<>>, at |-> 0, torn |-> FALSE]
ShmInit(par, n) ==
    [inReset |-> FALSE, ref |-> 0, lk |-> 0, tab |-> [x \in 0..par.nslot - 1 |-> 0], mem |-> {}, len |-> 0, cnt |-> 0,
     hits |-> 0, misses |-> 0, coll |-> 0, now |-> 1000, ids |-> 0, u |-> [i \in 1..n |-> User0]]

Bug(par, b) == par.bug = b
Here(s, id) == \E m \in s.mem : m.id = id
Ent(s, id) == CHOOSE m \in s.mem : m.id = id
At(s, u, pc) == [s EXCEPT !.u[u].pc = pc]
(* overwrites what overlaps *)
Write(s, m) == {x \in s.mem : x.to <= m.at \/ x.at >= m.to} \cup {m}

Begin(s, u, op) ==
    At([s EXCEPT !.u[u].op = op, !.u[u].res = <<>>, !.u[u].at = s.now], u,
       CASE op[1] = "find" -> "f0" [] op[1] = "rel" -> (IF s.u[u].held = <<>> THEN "end" ELSE "r0")
         [] op[1] = "add" -> "a0" [] op[1] = "reset" -> "s0" [] op[1] = "tick" -> "t0")
Ended(s, u) == At(s, u, "idle")

Steps(par, s, u) ==
    LET x == s.u[u]
        k == x.op[2]
        slot == par.slot[k + 1]
        Go(pc) == {At(s, u, pc)}
        Do(t, pc) == {At(t, u, pc)}
        Lock(pc) == IF s.lk = 0 THEN Do([s EXCEPT !.lk = u], pc) ELSE {}
        Old(m) == par.age >= 0 /\ s.now - m.ts >= par.age
    IN CASE x.pc \in {"idle", "end"} -> {}
       (* ---- find ---- *)
       [] x.pc = "f0" -> IF Bug(par, "peek") THEN (IF s.inReset THEN Go("end") ELSE Go("f0b")) ELSE Do([s EXCEPT !.ref = @ + 1], "f1")
       [] x.pc = "f0b" -> Do([s EXCEPT !.ref = @ + 1], "f2")
       [] x.pc = "f1" -> IF s.inReset THEN Go("f9") ELSE Go("f2")
       [] x.pc = "f2" -> IF s.tab[slot] = 0 THEN Go("f3") ELSE Do([s EXCEPT !.u[u].e = s.tab[slot]], "f4")
       [] x.pc = "f3" -> Do([s EXCEPT !.misses = @ + 1], "f9")
       [] x.pc = "f4" -> IF ~Here(s, x.e) THEN Do([s EXCEPT !.u[u].torn = TRUE], "f3")
                         ELSE IF Ent(s, x.e).k # k THEN Go("f3")
                         ELSE IF Old(Ent(s, x.e)) THEN Go("x0") ELSE Go("f5")
       [] x.pc = "f5" -> IF Bug(par, "early") THEN Do([s EXCEPT !.hits = @ + 1, !.ref = @ - 1], "f6") ELSE Do([s EXCEPT !.hits = @ + 1], "f6")
       [] x.pc = "f6" -> IF ~Here(s, x.e) THEN Do([s EXCEPT !.u[u].torn = TRUE], "end")
                         ELSE Do([s EXCEPT !.u[u].held = Append(@, x.e), !.u[u].res = <<Ent(s, x.e).p>>], "end")
       [] x.pc = "f9" -> Do([s EXCEPT !.ref = @ - 1], "end")
       [] x.pc = "x0" -> IF Bug(par, "nolock") THEN Go("x1") ELSE Lock("x1")
       [] x.pc = "x1" -> IF s.tab[slot] = x.e \/ Bug(par, "aba") THEN Go("x1a") ELSE Go("x2")
       [] x.pc = "x1a" -> Do([s EXCEPT !.tab[slot] = 0], "x1b")
       [] x.pc = "x1b" -> Do([s EXCEPT !.cnt = @ - 1], "x2")
       [] x.pc = "x2" -> IF Bug(par, "nolock") THEN Go("f3") ELSE Do([s EXCEPT !.lk = 0], "f3")
       (* ---- release ---- *)
       [] x.pc = "r0" -> Do([s EXCEPT !.u[u].held = SubSeq(@, 1, Len(@) - 1), !.ref = @ - 1], "end")
       (* ---- add ---- *)
       [] x.pc = "a0" -> IF s.inReset THEN Go("end") ELSE Go("a1")
       [] x.pc = "a1" -> Lock("a2")
       [] x.pc = "a2" -> IF s.tab[slot] = 0 THEN Go("a3")
                         ELSE IF ~Here(s, s.tab[slot]) THEN Do([s EXCEPT !.u[u].torn = TRUE], "a8")
                         ELSE IF Ent(s, s.tab[slot]).k = k THEN Go("a8") ELSE Do([s EXCEPT !.coll = @ + 1], "a8")
       [] x.pc = "a3" -> LET d == par.need[k + 1][x.op[3] + 1]
                             m == [id |-> s.ids + 1, k |-> k, p |-> x.op[3], ts |-> x.at, at |-> s.len, to |-> s.len + d]
                         IN IF s.len + d < par.dsize
                            THEN (IF Bug(par, "publish") THEN Do([s EXCEPT !.tab[slot] = m.id, !.ids = m.id, !.u[u].e = m.id], "a3b")
                                  ELSE Do([s EXCEPT !.mem = Write(s, m), !.ids = m.id, !.len = m.to, !.u[u].e = m.id], "a4"))
                            ELSE UNION {Do([s EXCEPT !.len = @ + q], "a6") : q \in {0} \cup {y \in par.part[k + 1][x.op[3] + 1] : s.len + y < par.dsize}}
       [] x.pc = "a3b" -> LET d == par.need[k + 1][x.op[3] + 1]
                              m == [id |-> x.e, k |-> k, p |-> x.op[3], ts |-> x.at, at |-> s.len, to |-> s.len + d]
                          IN Do([s EXCEPT !.mem = Write(s, m), !.len = m.to], "a5")
       [] x.pc = "a4" -> Do([s EXCEPT !.tab[slot] = x.e], "a5")
       [] x.pc = "a5" -> Do([s EXCEPT !.cnt = @ + 1], "a8")
       [] x.pc = "a6" -> Do([s EXCEPT !.lk = 0], "s0")
       [] x.pc = "a8" -> Do([s EXCEPT !.lk = 0], "end")
       (* ---- reset: the second line waits for a while, then gives up ---- *)
       [] x.pc = "s0" -> IF s.inReset THEN Go("end") ELSE Do([s EXCEPT !.inReset = TRUE], "s1")
       [] x.pc = "s1" -> IF s.ref > 0 /\ ~Bug(par, "impatient") THEN Go("s9") ELSE Go("s2")
       [] x.pc = "s2" -> Lock("s3")
       [] x.pc = "s3" -> Do([s EXCEPT !.cnt = 0, !.len = 0], "s4")
       [] x.pc = "s4" -> Do([s EXCEPT !.tab = [y \in DOMAIN s.tab |-> 0]], "s5")
       [] x.pc = "s5" -> Do([s EXCEPT !.lk = 0], IF Bug(par, "forget") THEN "end" ELSE "s9")
       [] x.pc = "s9" -> Do([s EXCEPT !.inReset = FALSE], IF Bug(par, "leak") /\ s.ref > 0 THEN "s10" ELSE "end")
       [] x.pc = "s10" -> Do([s EXCEPT !.ref = @ + 1], "end")
       [] x.pc = "t0" -> Do([s EXCEPT !.now = @ + x.op[2]], "end")

Users(s) == DOMAIN s.u
AllIdle(s) == \A u \in Users(s) : s.u[u].pc = "idle"
(* what the statistics say when nobody is at work *)
Stat(s) == <<s.cnt, s.hits, s.misses, s.ref, s.coll>>

(* ---- what has to hold always ---- *)
Inside == {"f1", "f2", "f3", "f4", "f5", "f6", "f9", "x0", "x1", "x1a", "x1b", "x2"}
RECURSIVE Held(_, _)
Held(s, i) == IF i = 0 THEN 0 ELSE Len(s.u[i].held) + Held(s, i - 1)
Occupied(s) == Cardinality({x \in DOMAIN s.tab : s.tab[x] # 0})
ShmLaw(par, s) ==
    /\ \A u \in Users(s) : ~s.u[u].torn                                              \* nobody reads what is gone
    /\ \A u \in Users(s) : \A i \in DOMAIN s.u[u].held : Here(s, s.u[u].held[i])     \* what is held stays
    /\ \A m \in s.mem : m.to < par.dsize
    /\ s.ref = Cardinality({u \in Users(s) : s.u[u].pc \in Inside}) + Held(s, Len(s.u))
    /\ AllIdle(s) => s.lk = 0 /\ ~s.inReset /\ s.cnt = Occupied(s)
    /\ AllIdle(s) => \A x \in DOMAIN s.tab : s.tab[x] # 0 => Here(s, s.tab[x]) /\ par.slot[Ent(s, s.tab[x]).k + 1] = x
    /\ \A u \in Users(s) : s.u[u].pc = "end" /\ s.u[u].op[1] = "find" /\ s.u[u].res # <<>> =>
           LET m == Ent(s, s.u[u].held[Len(s.u[u].held)]) IN m.k = s.u[u].op[2] /\ m.p = s.u[u].res[1]
=============================================================================
