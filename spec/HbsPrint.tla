------------------------------ MODULE HbsPrint ------------------------------
(***************************************************************************)
(* The printed forms of what a template is read into: its tokens, its      *)
(* syntax tree and its instruction listing.                                *)
(* The tree printer's state is [o, p, ip]: the text so far, the padding    *)
(* (its bookkeeping is the original printer's: a program takes one back),  *)
(* and whether literals and paths stand bare, as they do in the head of a  *)
(* partial.                                                                *)
(***************************************************************************)
EXTENDS HbsCompiler

S_nl == <<LF>>
RECURSIVE DecN(_)
DecN(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecN(n \div 10), 48 + (n % 10))
DecI(n) == IF n = -2147483647 - 1 THEN B("-2147483648") ELSE IF n < 0 THEN <<45>> \o DecN(-n) ELSE DecN(n)

PrEscCh(c, C) == IF c \notin C THEN <<c>>
               ELSE CASE c = LF -> <<BSL, 110>> [] c = CR -> <<BSL, 114>> [] c = TAB -> <<BSL, 116>> [] c = VT -> <<BSL, 118>> [] OTHER -> <<BSL, c>>
PrEsc(s, C) == FoldLeft(LAMBDA acc, c : acc \o PrEscCh(c, C), <<>>, s)

-----------------------------------------------------------------------------
(* tokens, one a line *)
TokLine(t) == B(t.k) \o B(" [") \o PrEsc(t.v, {CR, LF, TAB, VT}) \o B("]") \o S_nl
TokText(ts) == FoldLeft(LAMBDA acc, t : acc \o TokLine(t), <<>>, ts)
(* the lines with runs of text merged: where a run is split is not observable *)
TokenLines(t) == TokText(MergeContent(LexShown(Lex(t))))

-----------------------------------------------------------------------------
(* expressions: the text of a node; ip: bare *)
RECURSIVE Exp(_, _), ExpList(_, _, _, _), HashItems(_, _)
ExpList(ns, i, sep, ip) == IF i > Len(ns) THEN <<>> ELSE Exp(ns[i], ip) \o (IF i < Len(ns) THEN sep ELSE <<>>) \o ExpList(ns, i + 1, sep, ip)
HashItems(ps, i) == IF i > Len(ps) THEN <<>> ELSE ps[i][1] \o B("=") \o Exp(ps[i][2], FALSE) \o (IF i < Len(ps) THEN B(", ") ELSE <<>>) \o HashItems(ps, i + 1)
CallExp(path, params, hash, ip) == Exp(path, ip) \o B(" [") \o ExpList(params, 1, B(", "), ip) \o B("]") \o (IF hash.t = "none" THEN <<>> ELSE B(" ") \o Exp(hash, ip))
RECURSIVE PathParts(_, _, _)
Wrap(ip, a, s, z) == IF ip THEN s ELSE a \o s \o z
Exp(n, ip) ==
    CASE n.t = "none" -> <<>>
      [] n.t = "path" -> (IF n.data THEN <<64>> ELSE <<>>) \o (IF ip THEN <<>> ELSE B("PATH:")) \o PathParts(n, 1, <<>>)
      [] n.t = "sexpr" -> CallExp(n.path, n.params, n.hash, ip)
      [] n.t = "hash" -> B("HASH{") \o HashItems(n.pairs, 1) \o B("}")
      [] n.t = "str" -> Wrap(ip, <<DQ>>, n.v, <<DQ>>)
      [] n.t = "num" -> Wrap(ip, B("NUMBER{"), n.v, B("}"))
      [] n.t = "bool" -> B("BOOLEAN{") \o n.v \o B("}")
      [] n.t = "null" -> B("NULL")
      [] n.t = "undef" -> B("UNDEFINED")
(* the parts with their separators *)
PathParts(n, i, acc) == IF i > Len(n.parts) THEN acc ELSE PathParts(n, i + 1, acc \o (IF i > 1 THEN n.seps[i] ELSE <<>>) \o n.parts[i])

Pad(st, s) == [st EXCEPT !.o = @ \o (IF st.p > 0 /\ st.p < 16 THEN [k \in 1..(2 * st.p) |-> SP] ELSE <<>>) \o s]
Line(st, s) == Pad(st, s \o S_nl)
By(st, k) == [st EXCEPT !.p = @ + k]
RECURSIVE Pr(_, _), PrAll(_, _, _)
PrAll(st, ns, i) == IF i > Len(ns) THEN st ELSE PrAll(Pr(st, ns[i]), ns, i + 1)
Pr(st, n) ==
    CASE n.t = "none" -> st
      [] n.t = "prog" ->
            LET a == IF n.bp = <<>> THEN st ELSE Line(st, B("BLOCK PARAMS: [ ") \o n.bp[1] \o (IF Len(n.bp) > 1 THEN <<SP>> \o n.bp[2] ELSE <<>>) \o B(" ]"))
            IN By(PrAll(a, n.ss, 1), -1)
      [] n.t = "content" -> Line(st, B("CONTENT[ '") \o n.v \o B("' ]"))
      [] n.t = "comment" -> Line(st, B("{{! '") \o n.v \o B("' }}"))
      [] n.t = "mustache" -> Line(st, B("{{ ") \o (IF n.isdec THEN B("DIRECTIVE ") ELSE <<>>) \o CallExp(n.path, n.params, n.hash, FALSE) \o B(" }}"))
      [] n.t \in {"block", "raw"} ->
            LET a == By(Line(st, IF n.t = "block" /\ n.isdec THEN B("DIRECTIVE BLOCK:") ELSE B("BLOCK:")), 1)
                b == Line(a, CallExp(n.path, n.params, n.hash, FALSE))
                has == n.prog.t # "none"
                c == IF has THEN By(Pr(By(Line(b, B("PROGRAM:")), 1), n.prog), -1) ELSE b
                k == IF has THEN 1 ELSE 0
                d == IF n.inv.t # "none" THEN By(Pr(By(Line(By(c, k), B("{{^}}")), 1), n.inv), -1 - k) ELSE c
            IN By(d, -1)
      [] n.t = "partial" ->
            Line(st, B("{{> PARTIAL:") \o Exp(n.name, TRUE) \o (IF n.params = <<>> THEN <<>> ELSE <<SP>> \o Exp(n.params[1], FALSE))
                     \o (IF n.hash.t = "none" THEN <<>> ELSE <<SP>> \o Exp(n.hash, FALSE)) \o B(" }}"))
      [] n.t = "pblock" ->
            LET a == Pad(st, B("{{> PARTIAL BLOCK:") \o Exp(n.path, TRUE) \o (IF n.params = <<>> THEN <<>> ELSE B(" PATH:") \o ExpList(n.params, 1, <<>>, TRUE))
                             \o (IF n.hash.t = "none" THEN <<>> ELSE <<SP>> \o Exp(n.hash, TRUE)) \o B(" PROGRAM:") \o S_nl)
                b == By(Pr(By(a, 1), n.prog), -1)
            IN [b EXCEPT !.o = @ \o B(" }}") \o S_nl]
TreeText(n) == RTrim(Pr([o |-> <<>>, p |-> 0], n).o, {SP, TAB, CR, LF})

-----------------------------------------------------------------------------
(* instructions *)
NumOperands == [ambiguousBlockValue |-> 0, append |-> 0, appendEscaped |-> 0, popHash |-> 0, pushContext |-> 0, pushHash |-> 0, resolvePossibleLambda |-> 0,
                getContext |-> 1, pushProgram |-> 1, appendContent |-> 1, assignToHash |-> 1, blockValue |-> 1, push |-> 1, pushLiteral |-> 1, pushString |-> 1, emptyHash |-> 1,
                pushStringParam |-> 2, invokeKnownHelper |-> 2, lookupBlockParam |-> 2, registerDecorator |-> 2,
                invokeAmbiguous |-> 3, invokeHelper |-> 3, invokePartial |-> 3, pushId |-> 3, lookupData |-> 3, lookupOnContext |-> 4]
JoinC(a) == FoldLeft(LAMBDA acc, s : IF acc = <<>> THEN <<s>> ELSE << acc[1] \o B(",") \o s >>, <<>>, a)
OperandText(o) ==
    CASE o[1] = "0" -> B("[NULL]")
      [] o[1] = "b" -> B("[BOOLEAN:") \o (IF o[2] THEN B("1") ELSE B("0")) \o B("]")
      [] o[1] = "l" -> B("[LONG:") \o DecI(o[2]) \o B("]")
      [] o[1] = "L" -> B("[LONG:") \o B(o[2]) \o B("]")
      [] o[1] = "s" -> B("[STRING:") \o PrEsc(o[2], {CR, LF, TAB}) \o B("]")
      [] o[1] = "a" -> B("[ARRAY:") \o (IF o[2] = <<>> THEN <<>> ELSE JoinC(o[2])[1]) \o B("]")
OpText(op) == LET n == IF op[1] = "invokeAmbiguous" /\ op[4] = NoOp THEN 2 ELSE NumOperands[op[1]]
              IN B(op[1]) \o FoldLeft(LAMBDA acc, k : acc \o OperandText(op[k + 1]), <<>>, [k \in 1..n |-> k])
Ind(d) == [k \in 1..(2 * d) |-> SP]
RECURSIVE ProgText(_, _)
ProgText(p, d) ==
    FoldLeft(LAMBDA acc, op : acc \o Ind(d) \o OpText(op) \o S_nl, <<>>, p.ops) \o Ind(d) \o B("-----") \o S_nl
    \o FoldLeft(LAMBDA acc, q : acc \o Ind(d + 1) \o B("DECORATOR") \o S_nl \o ProgText(q, d + 1), <<>>, p.decs)
    \o FoldLeft(LAMBDA acc, q : acc \o ProgText(q, d + 1), <<>>, p.kids)
ListingText(p) == ProgText(p, 0)

-----------------------------------------------------------------------------
(* The serialized program.  Programs are numbered as they are met: the     *)
(* children of a program in a row, before any of theirs; the instructions  *)
(* of a program stand before those of its children.  Decorators are left   *)
(* out.  The state is [n, tab, ops]: programs so far, the instruction      *)
(* count and offset of each, and the instructions <<program, op>>.         *)
Relink(op, base) == IF op[1] = "pushProgram" /\ op[2][1] = "l" THEN [op EXCEPT ![2] = OL(@[2] + base)] ELSE op
Return == <<"return", NoOp, NoOp, NoOp, NoOp>>
RECURSIVE Serial(_, _, _)
Serial(st, p, g) ==
    LET base == st.n
        a == [n |-> st.n + Len(p.kids),
              tab |-> [st.tab EXCEPT ![g + 1] = <<Len(p.ops) + 1, Len(st.ops)>>] \o [k \in 1..Len(p.kids) |-> <<0, 0>>],
              ops |-> st.ops \o [k \in 1..Len(p.ops) |-> <<g, Relink(p.ops[k], base)>>] \o << <<g, Return>> >>]
    IN FoldLeft(LAMBDA s, k : Serial(s, p.kids[k], base + k - 1), a, [k \in 1..Len(p.kids) |-> k])
ToModule(p) == Serial([n |-> 1, tab |-> << <<0, 0>> >>, ops |-> <<>>], p, 0)

(* the table is a partition of the instructions, program by program *)
TableOk(m) == /\ Len(m.tab) = m.n
              /\ \A i \in 1..Len(m.ops) : LET e == m.tab[m.ops[i][1] + 1] IN i > e[2] /\ i <= e[2] + e[1]
              /\ \A g \in 1..m.n : m.ops[m.tab[g][1] + m.tab[g][2]][2] = Return
              /\ \A i \in 1..Len(m.ops) : LET o == m.ops[i][2] IN (o[1] = "pushProgram" /\ o[2][1] = "l") => (o[2][2] \in 1..(m.n - 1))

Pad3(n) == LET s == DecN(n) IN [k \in 1..Max2(0, 3 - Len(s)) |-> 48] \o s
SerialOpText(op) == IF op = Return THEN B("return") ELSE OpText(op)
ModuleText(m, flags) ==
    B("FLAGS: ") \o DecN(flags) \o S_nl \o B("PROGRAMS: ") \o DecN(m.n) \o S_nl \o B("OPCODES: ") \o DecN(Len(m.ops)) \o S_nl \o S_nl
    \o FoldLeft(LAMBDA acc, g : acc \o B("PROGRAM: ") \o DecN(g - 1) \o S_nl \o B("OPCODE_COUNT: ") \o DecN(m.tab[g][1]) \o S_nl
                               \o B("OPCODE_OFFSET: ") \o DecN(m.tab[g][2]) \o S_nl \o S_nl, <<>>, [k \in 1..m.n |-> k])
    \o FoldLeft(LAMBDA acc, i : LET g == m.ops[i][1]
                                    new == i = 1 \/ m.ops[i - 1][1] # g
                                IN acc \o (IF new THEN (IF i = 1 THEN <<>> ELSE S_nl) \o B("PROGRAM: ") \o DecN(g) \o S_nl ELSE <<>>)
                                   \o B("OP[") \o Pad3(i - 1 - m.tab[g + 1][2]) \o B(",") \o Pad3(i - 1) \o B("]: ") \o SerialOpText(m.ops[i][2]) \o S_nl,
                 <<>>, [k \in 1..Len(m.ops) |-> k])
=============================================================================
