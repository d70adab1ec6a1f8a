------------------------------ MODULE HbsLoader -----------------------------
(***************************************************************************)
(* Partials out of a directory.  State: fs, the files below the directory  *)
(* as << <<path segments, "dir" or "file", bytes>>, .. >>, and seen, the   *)
(* partials read so far << <<name, bytes>>, .. >> in the order of their    *)
(* first use.  A name denotes the file  directory "/" name extension.      *)
(***************************************************************************)
EXTENDS HbsSem, FiniteSets

SLASH == 47
MaxSeg == 255
RECURSIVE PathSplit(_, _, _)
PathSplit(s, i, acc) == IF i > Len(s) THEN acc
                    ELSE IF s[i] = SLASH THEN PathSplit(s, i + 1, Append(acc, <<>>))
                    ELSE PathSplit(s, i + 1, [acc EXCEPT ![Len(acc)] = Append(@, s[i])])
PathSegs(s) == PathSplit(s, 1, << <<>> >>)

RECURSIVE Entry(_, _, _)
Entry(fs, p, i) == IF i > Len(fs) THEN 0 ELSE IF fs[i][1] = p THEN i ELSE Entry(fs, p, i + 1)
Kind(fs, p) == IF p = <<>> THEN "dir" ELSE LET i == Entry(fs, p, 1) IN IF i = 0 THEN "none" ELSE fs[i][2]

RECURSIVE Resolve(_, _, _, _)
(* where the segments lead from the directory cur: << path >>, or <<>> *)
Resolve(fs, cur, ss, i) ==
    IF i > Len(ss) THEN <<cur>>
    ELSE IF Kind(fs, cur) # "dir" \/ Len(ss[i]) > MaxSeg THEN <<>>
    ELSE IF ss[i] = <<>> \/ ss[i] = <<46>> THEN Resolve(fs, cur, ss, i + 1)
    ELSE IF ss[i] = <<46, 46>> THEN IF cur = <<>> THEN <<>> ELSE Resolve(fs, SubSeq(cur, 1, Len(cur) - 1), ss, i + 1)
    ELSE Resolve(fs, Append(cur, ss[i]), ss, i + 1)

(* what the name denotes in the directory: <<"none">>, <<"bad">> or <<"text", bytes>>; an empty file counts as one that cannot be read *)
Denotes(fs, ext, name) ==
    LET p == Resolve(fs, <<>>, PathSegs(name \o ext), 1)
        i == IF p = <<>> THEN 0 ELSE Entry(fs, p[1], 1)
    IN IF NUL \in SeqRange(name) THEN <<"none">>
       ELSE IF p # <<>> /\ p[1] = <<>> THEN <<"bad">>
       ELSE IF i = 0 THEN <<"none">>
       ELSE IF fs[i][2] = "dir" \/ fs[i][3] = <<>> THEN <<"bad">>
       ELSE <<"text", fs[i][3]>>

(* the same, but a partial stays what it was at its first use *)
Partial(st, ext, name) == LET i == KeyAt(st.seen, name, 1) IN IF i # 0 THEN <<"text", st.seen[i][2]>> ELSE Denotes(st.fs, ext, name)
Use(st, ext, name) == IF KeyAt(st.seen, name, 1) # 0 THEN st
                      ELSE LET d == Denotes(st.fs, ext, name) IN IF d[1] = "text" THEN [st EXCEPT !.seen = Append(@, <<name, d[2]>>)] ELSE st
RECURSIVE UseAll(_, _, _, _)
UseAll(st, ext, names, i) == IF i > Len(names) THEN st ELSE UseAll(Use(st, ext, names[i]), ext, names, i + 1)

(* the partials of the names, as a rendering wants them; one that cannot be read is no template *)
InMemory(st, ext, names) ==
    LET f(n) == LET d == Partial(st, ext, n) IN IF d[1] = "none" THEN <<>> ELSE << <<n, IF d[1] = "bad" THEN VNull ELSE VStr(d[2])>> >>
    IN FoldLeft(LAMBDA acc, n : acc \o f(n), <<>>, names)

-----------------------------------------------------------------------------
Under(fs, p) == SelectSeq(fs, LAMBDA x : ~(Len(x[1]) >= Len(p) /\ SubSeq(x[1], 1, Len(p)) = p))
RECURSIVE Parents(_, _, _)
Parents(fs, p, n) == IF n >= Len(p) THEN fs
                     ELSE LET q == SubSeq(p, 1, n) IN Parents(IF Kind(fs, q) = "dir" THEN fs ELSE Append(Under(fs, q), <<q, "dir", <<>>>>), p, n + 1)
Put(fs, p, kind, bytes) == Append(Parents(Under(fs, p), p, 1), <<p, kind, bytes>>)

Fld(c, f, d) == IF f \in DOMAIN c THEN c[f] ELSE d
Hlp(h) == <<B(h[1]), <<"f", h[2]>>>>
EnvWith(c, ps) == [Env0(Flags(Fld(c, "flags", 0)), LET h == Fld(c, "helpers", <<>>) IN [i \in 1..Len(h) |-> Hlp(h[i])], ps, Fld(c, "dv", VNull)) EXCEPT !.kn = LET k == Fld(c, "known", <<>>) IN {k[i] : i \in 1..Len(k)}]

LoaderInit == [fs |-> <<>>, seen |-> <<>>]
(* ops on files name them by the full path below the directory; names: the partial names that renders may mention *)
LoaderStep(st, ext, names, op) ==
    LET p == op[1] IN
    CASE p = "write" -> <<[st EXCEPT !.fs = Put(@, PathSegs(op[2]), "file", op[3])], <<>>>>
      [] p = "mkdir" -> <<[st EXCEPT !.fs = Put(@, PathSegs(op[2]), "dir", <<>>)], <<>>>>
      [] p = "rm" -> <<[st EXCEPT !.fs = Under(@, PathSegs(op[2]))], <<>>>>
      [] p = "find" -> LET d == Partial(st, ext, op[2]) IN
                       <<Use(st, ext, op[2]), CASE d[1] = "none" -> <<>> [] d[1] = "bad" -> <<"err", E_ERROR>> [] OTHER -> <<d[2]>> >>
      [] p = "list" -> <<st, <<Len(st.seen), st.seen>> >>
      [] p = "render" ->
         LET r == Render(op[2].t, op[2].data, EnvWith(op[2], InMemory(st, ext, names))) IN
         <<UseAll(st, ext, r.used, 1), IF r.e = 0 THEN <<"out", r.v>> ELSE <<"err", r.e>> >>

RECURSIVE RunLoader(_, _, _, _, _, _)
RunLoader(st, ext, names, ops, i, acc) ==
    IF i > Len(ops) THEN acc
    ELSE LET r == LoaderStep(st, ext, names, ops[i]) IN RunLoader(r[1], ext, names, ops, i + 1, Append(acc, r[2]))
=============================================================================
