----------------------------- MODULE EnumParse -----------------------------
(***************************************************************************)
(* All templates that are at most Params.max fragments of an alphabet      *)
(* long.  A fragment carries a nesting change d; when Params.bal is set    *)
(* only prefixes of balanced templates are states and only the balanced    *)
(* ones are reported.  The invariants are laws of the lexer, parser and    *)
(* whitespace control that are stated without reference to how these       *)
(* work; PrintCase gives every state to the replay in the implementation.  *)
(***************************************************************************)
EXTENDS HbsCompiler, TLC, Json, IOUtils, FiniteSets
Params == ndJsonDeserialize(IOEnv.PARAMS)[1]
Frags == Params.frags
MaxLen == Params.max
Ign == Params.ign
VARIABLES fr, dep
RECURSIVE CatF(_)
CatF(s) == IF s = <<>> THEN <<>> ELSE Frags[Head(s)].s \o CatF(Tail(s))
T == CatF(fr)
Init == fr = <<>> /\ dep = 0
Next == /\ Len(fr) < MaxLen
        /\ \E f \in 1..Len(Frags) :
              /\ fr' = Append(fr, f)
              /\ dep' = dep + Frags[f].d
              /\ Params.bal => dep' >= 0 /\ dep' <= MaxLen - Len(fr) - 1

-----------------------------------------------------------------------------
(* the texts of the tokens are the template with bytes left out; only
   backslashes, blanks between the parts of a tag, and the quotes and
   brackets of literals may be left out *)
RECURSIVE Subseq(_, _, _, _, _)
Subseq(a, i, b, j, C) == IF i > Len(a) THEN \A k \in j..Len(b) : b[k] \in C
                         ELSE IF j > Len(b) THEN FALSE
                         ELSE IF a[i] = b[j] THEN Subseq(a, i+1, b, j+1, C)
                         ELSE b[j] \in C /\ Subseq(a, i, b, j+1, C)
RECURSIVE Texts(_, _)
Texts(ts, i) == IF i > Len(ts) THEN <<>> ELSE ts[i].v \o Texts(ts, i+1)
Kinds(ts) == {ts[i].k : i \in 1..Len(ts)}
LexLaw == LET ts == Lex(T) IN
          /\ Kinds(ts) \subseteq {"CONTENT", "END"} => Subseq(Texts(ts, 1), 1, T, 1, {BSL})
          /\ "INVALID" \notin Kinds(ts) => Subseq(Texts(ts, 1), 1, T, 1, {BSL, SP, LF, TAB, CR, DQ, SQ, 64, LBRACE, RBRACE, 47})

(* the static text nodes of a tree in order of occurrence, as <<value, original>> *)
RECURSIVE Conts(_), ContsOf(_, _)
ContsOf(ss, i) == IF i > Len(ss) THEN <<>> ELSE Conts(ss[i]) \o ContsOf(ss, i + 1)
Conts(n) == CASE n.t = "prog" -> ContsOf(n.ss, 1)
              [] n.t = "content" -> << <<n.v, n.o>> >>
              [] n.t = "block" -> Conts(n.prog) \o Conts(n.inv)
              [] n.t \in {"pblock", "raw"} -> Conts(n.prog)
              [] OTHER -> <<>>
HasTilde == TILDE \in SeqRange(T)
AllWs(s) == \A i \in 1..Len(s) : s[i] \in {SP, TAB, VT, LF, CR}
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
(* stripping removes white space only, at the two ends only, and without a ~ at most one line end on the right and none
   on the left *)
StripLaw ==
    LET r == Parse(T, Ign) IN
    r.ok => LET cs == Conts(r.n) IN \A k \in 1..Len(cs) :
        LET v == cs[k][1]  o == cs[k][2] IN
        \E a \in 0..Len(o) : \E b \in 0..Len(o) :
            /\ a + Len(v) + b = Len(o)
            /\ Sub(o, a + 1, a + Len(v)) = v
            /\ LET left == Sub(o, 1, a)  right == Sub(o, Len(o) - b + 1, Len(o)) IN
               /\ AllWs(left) /\ AllWs(right)
               /\ ~HasTilde => /\ Count(left, LF) <= 1 /\ (Count(left, LF) = 1 => left[a] = LF)
                               /\ Count(right, LF) = 0
               /\ ~HasTilde /\ Ign => a = 0 /\ b = 0
(* the parse before whitespace control already has every original text, and the texts of a template without tags are the template *)
KeepLaw ==
    LET ts == Lex(T)
        r == ParseTokens(ts)
        q == Parse(T, Ign)
    IN /\ r.ok = q.ok
       /\ r.ok => LET a == Conts(r.n)  b == Conts(q.n) IN
                  Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k][2] = b[k][2]
(* a template with no tag that can stand alone and no ~ keeps all its text *)
PlainLaw ==
    LET ts == Lex(T) IN
    (~HasTilde /\ Kinds(ts) \subseteq {"CONTENT", "OPEN", "CLOSE", "OPEN_UNESCAPED", "CLOSE_UNESCAPED", "ID", "SEP", "DATA", "NUMBER", "STRING", "END"})
    => LET q == Parse(T, Ign) IN q.ok => \A k \in 1..Len(Conts(q.n)) : Conts(q.n)[k][1] = Conts(q.n)[k][2]

(* Writing a tree out and reading it again gives the same tree, except that an else chain becomes nested blocks.  Texts with
   backslashes or braces are left out: which of them are escapes depends on what follows. *)
RECURSIVE Unchain(_)
Unchain(n) == CASE n.t = "prog" -> [n EXCEPT !.chained = FALSE, !.ss = [i \in 1..Len(@) |-> Unchain(@[i])]]
                [] n.t = "block" -> [n EXCEPT !.prog = Unchain(@), !.inv = Unchain(@)]
                [] n.t \in {"pblock", "raw"} -> [n EXCEPT !.prog = Unchain(@)]
                [] OTHER -> n
RoundLaw ==
    LET r == ParseTokens(Lex(T)) IN
    (r.ok /\ \A k \in 1..Len(Conts(r.n)) : SeqRange(Conts(r.n)[k][1]) \cap {BSL, LBRACE} = {}) =>
        LET q == ParseTokens(Lex(ToStr(r.n, {}))) IN q.ok /\ Unchain(q.n) = Unchain(r.n)

(* the error position is meaningful: an accepted template's tokens are all consumed *)
PrintCase == (~Params.bal \/ dep = 0) =>
             LET ts == Lex(T)
                 r == Parse(T, Ign)
                 m == MergeContent(LexShown(ts))
             IN PrintT("RES" \o ToJson([t |-> T, toks |-> [j \in 1..Len(m) |-> <<m[j].k, m[j].v>>],
                                        ast |-> IF r.ok THEN Node(r.n) ELSE <<"err", r.e>>,
                                        str |-> IF r.ok THEN ToStr(r.n, {}) ELSE <<>>]))
=============================================================================
