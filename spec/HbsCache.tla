------------------------------ MODULE HbsCache ------------------------------
(***************************************************************************)
(* The three caches of compiled programs as their users see them: which    *)
(* program a lookup returns, what is evicted when, the statistics, and     *)
(* that a program somebody holds stays what it is.                         *)
(*                                                                         *)
(* Keys k and programs p are numbers from 0.  par tells what the           *)
(* environment fixes: kind, sz[p+1] size of a program, ksz[k+1] size of a  *)
(* key, slot[k+1] the place of a key in the table of the shared memory,    *)
(* or the record of a long key on disk (that of its hash; the record tells *)
(* which key it is of, but there is only one), dsize the size of its data  *)
(* area, cap the size of the database, step the time an operation takes.   *)
(*                                                                         *)
(* Post(par, st, op, d) is the set of <<state, answer>> an operation may   *)
(* lead to; it is not a function because programs last used at the same    *)
(* time may be evicted in any order, because a process may die before or   *)
(* after its change is durable, and because how much room an entry takes   *)
(* in the shared memory (d) is only bounded.                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Slack == 96    \* room for alignment and the table's own data per entry
Hdr == 16
Magic == 8     \* the mark that a program begins with and nothing reads

CacheInit(par) == [ents |-> <<>>, held |-> <<>>, now |-> 1000, age |-> par.age, msize |-> par.max_size, mn |-> par.max_n,
                   hits |-> 0, misses |-> 0, coll |-> 0, len |-> 0]
RECURSIVE SumSize(_, _)
SumSize(par, es) == IF es = <<>> THEN 0 ELSE par.sz[es[1].p + 1] + SumSize(par, Tail(es))
RECURSIVE SumUses(_)
SumUses(es) == IF es = <<>> THEN 0 ELSE es[1].uses + SumUses(Tail(es))
Find(es, k) == LET s == {i \in 1..Len(es) : es[i].k = k} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
Drop(es, i) == SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))
Old(st, e) == st.age >= 0 /\ st.now - e.ts >= st.age
Entry(k, p, t) == [k |-> k, p |-> p, ts |-> t, uses |-> 0, ok |-> TRUE]
Hold(st, k, p) == [st EXCEPT !.held = Append(@, [k |-> k, p |-> p]), !.hits = @ + 1]
Miss(st) == [st EXCEPT !.misses = @ + 1]

(* ---- in memory ---- *)
Over(par, st) == \/ st.msize > 0 /\ SumSize(par, st.ents) > st.msize
                 \/ st.mn > 0 /\ Len(st.ents) > st.mn
RECURSIVE Collect(_, _, _)
Collect(par, st, n) ==
    LET free == {i \in 1..Len(st.ents) : st.ents[i].uses = 0}
        first == {i \in free : \A j \in free : st.ents[i].ts <= st.ents[j].ts}
        some == CHOOSE i \in first : TRUE
    IN IF free = {} THEN {<<st, n>>}
       ELSE IF Old(st, st.ents[some]) THEN Collect(par, [st EXCEPT !.ents = Drop(@, some)], n + 1)
       ELSE IF ~Over(par, st) THEN {<<st, n>>}
       ELSE UNION {Collect(par, [st EXCEPT !.ents = Drop(@, i)], n + 1) : i \in first}

SimpleOp(par, st, op) ==
    LET at == Find(st.ents, op[2])
    IN CASE op[1] = "add" ->
              {LET s2 == g[1] IN IF Find(s2.ents, op[2]) # 0 THEN <<s2, <<"err", 1>>>> ELSE <<[s2 EXCEPT !.ents = Append(@, Entry(op[2], op[3], s2.now))], <<>>>>
               : g \in (IF Over(par, st) THEN Collect(par, st, 0) ELSE {<<st, 0>>})}
         [] op[1] = "find" ->
              IF at = 0 THEN {<<Miss(st), <<>>>>}
              ELSE {<<Hold([st EXCEPT !.ents[at].ts = st.now, !.ents[at].uses = @ + 1], op[2], st.ents[at].p), <<st.ents[at].p>>>>}
         [] op[1] = "rel" ->
              IF st.held = <<>> THEN {<<st, <<>>>>}
              ELSE LET i == 1 + (op[2] % Len(st.held)) IN {<<[st EXCEPT !.held = Drop(@, i), !.ents[Find(st.ents, st.held[i].k)].uses = @ - 1], <<>>>>}
         [] op[1] = "gc" -> {<<g[1], <<g[2]>>>> : g \in Collect(par, st, 0)}
         [] op[1] = "reset" -> {<<[st EXCEPT !.ents = SelectSeq(@, LAMBDA e : e.uses > 0), !.hits = 0, !.misses = 0], <<>>>>}

(* ---- in shared memory ---- *)
Need(par, op) == par.ksz[op[2] + 1] + par.sz[op[3] + 1] + Hdr
AtSlot(par, st, k) == LET s == {i \in 1..Len(st.ents) : par.slot[st.ents[i].k + 1] = par.slot[k + 1]} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
MmapOp(par, st, op, d) ==
    LET at == AtSlot(par, st, op[2])
        hit == at # 0 /\ st.ents[at].k = op[2]
        need == Need(par, op)
    IN CASE op[1] = "add" ->
              IF hit THEN {<<st, <<>>>>}
              ELSE IF at # 0 THEN {<<[st EXCEPT !.coll = @ + 1], <<>>>>}
              ELSE (IF d \in need .. need + Slack /\ st.len + d <= par.dsize
                    THEN {<<[st EXCEPT !.len = @ + d, !.ents = Append(@, Entry(op[2], op[3], st.now))], <<>>>>} ELSE {})
                   \cup
                   (IF st.len + need + Slack < par.dsize THEN {}
                    ELSE IF st.held = <<>> THEN {<<[st EXCEPT !.len = 0, !.ents = <<>>], <<>>>>}
                    ELSE IF d \in 0 .. need + Slack /\ st.len + d <= par.dsize THEN {<<[st EXCEPT !.len = @ + d], <<>>>>} ELSE {})
         [] op[1] = "find" ->
              IF ~hit THEN {<<Miss(st), <<>>>>}
              ELSE IF Old(st, st.ents[at]) THEN {<<Miss([st EXCEPT !.ents = Drop(@, at)]), <<>>>>}
              ELSE {<<Hold(st, op[2], st.ents[at].p), <<st.ents[at].p>>>>}
         [] op[1] = "rel" ->
              IF st.held = <<>> THEN {<<st, <<>>>>} ELSE {<<[st EXCEPT !.held = Drop(@, 1 + (op[2] % Len(st.held)))], <<>>>>}
         [] op[1] = "gc" -> {<<st, <<0>>>>}
         [] op[1] = "reset" -> {<<IF st.held = <<>> THEN [st EXCEPT !.ents = <<>>, !.len = 0] ELSE st, <<>>>>}

(* ---- on disk ---- *)
Reopened(st) == [st EXCEPT !.held = <<>>, !.hits = 0, !.misses = 0]
LmdbOp(par, st, op) ==
    LET at == Find(st.ents, op[2])
        size == SumSize(par, st.ents) + 8192 * Len(st.ents)
    IN CASE op[1] = "add" ->
              (IF par.sz[op[3] + 1] >= par.cap THEN {}
               ELSE LET old == SelectSeq(st.ents, LAMBDA e : e.k # op[2])
                    IN {<<[st EXCEPT !.ents = Append(es, Entry(op[2], op[3], st.now))], <<>>>>
                        : es \in {old, SelectSeq(old, LAMBDA e : par.slot[e.k + 1] # par.slot[op[2] + 1])}})
              \cup (IF 3 * (size + par.sz[op[3] + 1]) > par.cap THEN {<<st, <<>>>>} ELSE {})
         [] op[1] = "find" ->
              IF at = 0 \/ ~st.ents[at].ok \/ Old(st, st.ents[at]) THEN {<<Miss(st), <<>>>>}
              ELSE {<<Hold(st, op[2], st.ents[at].p), <<st.ents[at].p>>>>}
         [] op[1] = "rel" ->
              IF st.held = <<>> THEN {<<st, <<>>>>} ELSE {<<[st EXCEPT !.held = Drop(@, 1 + (op[2] % Len(st.held)))], <<>>>>}
         [] op[1] = "gc" ->
              {LET left == SelectSeq(st.ents, LAMBDA e : ~((e.ok /\ Old(st, e)) \/ e.k \in bad)) IN <<[st EXCEPT !.ents = left], <<Len(st.ents) - Len(left)>>>>
               : bad \in SUBSET {st.ents[i].k : i \in {j \in 1..Len(st.ents) : ~st.ents[j].ok}}}
         [] op[1] = "reset" -> {<<[st EXCEPT !.ents = <<>>, !.hits = 0, !.misses = 0], <<>>>>}
         [] op[1] = "reopen" -> {<<Reopened(st), <<>>>>}
         [] op[1] = "damage" ->
              IF at = 0 THEN {<<Reopened(st), <<0>>>>}
              ELSE IF ~st.ents[at].ok THEN {<<Reopened(st), <<n>>>> : n \in {0, 1}}
              ELSE {<<Reopened(IF op[3] = "ts" THEN [st EXCEPT !.ents[at].ts = op[4]] ELSE [st EXCEPT !.ents[at].ok = ok]), <<1>>>>
                    : ok \in {FALSE} \cup (IF op[3] = "xor" /\ op[4] % par.sz[st.ents[at].p + 1] < Magic THEN {TRUE} ELSE {})}

Tick(par, st) == [st EXCEPT !.now = @ + par.step]
RECURSIVE Op(_, _, _, _)
Op(par, st, op, d) ==
    CASE op[1] = "tick" -> {<<[st EXCEPT !.now = @ + op[2]], <<>>>>}
      [] op[1] = "age" -> {<<[st EXCEPT !.age = op[2]], <<>>>>}
      [] op[1] = "size" -> {<<[st EXCEPT !.msize = op[2]], <<>>>>}
      [] op[1] = "n" -> {<<[st EXCEPT !.mn = op[2]], <<>>>>}
      [] op[1] = "other" -> {<<[x[1] EXCEPT !.held = st.held, !.hits = st.hits, !.misses = st.misses], x[2]>> : x \in Op(par, [st EXCEPT !.held = <<>>], op[2], d)}
      [] op[1] = "die" -> LET xs == Op(par, [st EXCEPT !.held = <<>>], op[3], d)
                          IN UNION {{<<Reopened(x[1]), x[2]>>, <<Reopened(x[1]), <<-77>>>>, <<Reopened(st), <<-77>>>>} : x \in xs}
      [] OTHER -> CASE par.kind = "simple" -> SimpleOp(par, st, op)
                    [] par.kind = "mmap" -> MmapOp(par, st, op, d)
                    [] par.kind = "lmdb" -> LmdbOp(par, st, op)
Post(par, st, op, d) == {<<Tick(par, x[1]), x[2]>> : x \in Op(par, st, op, d)}

(* entries, size, hits, misses, programs in use, collisions, used data *)
Stat(par, st) ==
    LET n == Len(st.ents)
    IN CASE par.kind = "simple" -> <<n, SumSize(par, st.ents), st.hits, st.misses, SumUses(st.ents), 0, 0>>
         [] par.kind = "mmap" -> <<n, st.len + n * Hdr, st.hits, st.misses, Len(st.held), st.coll, st.len>>
         [] par.kind = "lmdb" -> <<n, 0, st.hits, st.misses, 0, 0, 0>>
Obs(par, x) == <<x[2], Stat(par, x[1]), [i \in 1..Len(x[1].held) |-> x[1].held[i].p]>>

(* the states a history may be in after it was observed as obs says; the number of steps that can be explained *)
RECURSIVE Follow(_, _, _, _, _)
Follow(par, sts, ops, obs, i) ==
    IF i > Len(ops) THEN [ok |-> TRUE, n |-> i - 1, want |-> {}]
    ELSE LET D(st) == obs[i][2][7] - st.len
             all == UNION {Post(par, st, ops[i], D(st)) : st \in sts}
             good == {x[1] : x \in {y \in all : Obs(par, y) = obs[i]}}
         IN IF good = {} THEN [ok |-> FALSE, n |-> i - 1, want |-> {Obs(par, y) : y \in all}]
            ELSE Follow(par, good, ops, obs, i + 1)

(* what has to hold in every state, by the meaning of the properties *)
CacheLaw(par, st) ==
    /\ \A i, j \in 1..Len(st.ents) : st.ents[i].k = st.ents[j].k => i = j
    /\ par.kind = "simple" =>
        /\ SumUses(st.ents) = Len(st.held)
        /\ \A h \in 1..Len(st.held) : LET i == Find(st.ents, st.held[h].k) IN i # 0 /\ st.ents[i].p = st.held[h].p
        /\ \A g \in Collect(par, st, 0) : LET s == g[1] IN
              /\ \A i \in 1..Len(s.ents) : s.ents[i].uses = 0 => ~Old(s, s.ents[i])
              /\ Over(par, s) => \A i \in 1..Len(s.ents) : s.ents[i].uses > 0
              /\ \A i \in 1..Len(st.ents) : st.ents[i].uses > 0 => Find(s.ents, st.ents[i].k) # 0
              /\ ~Over(par, st) => \A i \in 1..Len(st.ents) : ~Old(st, st.ents[i]) => Find(s.ents, st.ents[i].k) # 0
    /\ par.kind = "mmap" =>
        /\ st.len <= par.dsize
        /\ \A i, j \in 1..Len(st.ents) : par.slot[st.ents[i].k + 1] = par.slot[st.ents[j].k + 1] => i = j
=============================================================================
