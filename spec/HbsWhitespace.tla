---------------------------- MODULE HbsWhitespace ----------------------------
(***************************************************************************)
(* Whitespace control: ~ stripping and standalone lines, by the visitor    *)
(* algorithm of handlebars.  Acc(prog, root, ign) gives the tree with      *)
(* content values, strip flags and partial indents settled.                *)
(***************************************************************************)
EXTENDS HbsParser

Blank == {SP, TAB, VT, CR}       \* skipped when looking for a line end
TrimAll == {SP, VT, TAB, CR, LF}
TrimLine == {SP, TAB}

(* text begins with blanks and a newline (or is all blank, when def) *)
NextWs(o0, def) == LET o == CStr(o0)
                       e == Span(o, 1, Blank) IN IF e > Len(o) THEN def ELSE o[e] = LF
(* text ends with a newline and blanks (or is all blank, when def) *)
RECURSIVE PrevScan(_, _, _)
PrevScan(o, i, def) == IF i = 0 THEN def ELSE IF o[i] = LF THEN TRUE ELSE IF o[i] \in Blank THEN PrevScan(o, i - 1, def) ELSE FALSE
PrevWs(o0, def) == LET o == CStr(o0) IN PrevScan(o, Len(o), def)

IsNextWs(ss, i, root) ==   \* is what follows statement i (0: start of the list) blank up to a line end
    IF i + 1 > Len(ss) THEN root
    ELSE IF ss[i + 1].t = "content" THEN NextWs(ss[i + 1].o, (i + 2 > Len(ss)) /\ root) ELSE FALSE
IsPrevWs(ss, i, root) ==   \* i = Len+1: end of the list
    IF i - 1 < 1 THEN root
    ELSE IF ss[i - 1].t = "content" THEN PrevWs(ss[i - 1].o, (i - 2 < 1) /\ root) ELSE FALSE

(* strip the content at position j on its left / right side *)
OmitLeftAt(ss, j, multi) ==      \* trailing whitespace of content j goes
    IF j < 1 \/ j > Len(ss) THEN ss
    ELSE IF ss[j].t # "content" \/ (~multi /\ ss[j].st.ls) THEN ss
    ELSE LET v == ss[j].v
             w == RTrim(v, IF multi THEN TrimAll ELSE TrimLine)
         IN [ss EXCEPT ![j].v = w, ![j].st.ls = (Len(v) # Len(w)), ![j].st.set = TRUE]
DropNl(v) == LET a == IF ChAt(v, 1, CR) THEN Tail(v) ELSE v IN IF ChAt(a, 1, LF) THEN Tail(a) ELSE a
OmitRightAt(ss, j, multi) ==     \* leading whitespace of content j goes
    IF j < 1 \/ j > Len(ss) THEN ss
    ELSE IF ss[j].t # "content" \/ (~multi /\ ss[j].st.rs) THEN ss
    ELSE LET v == ss[j].v
             w == IF multi THEN LTrim(v, TrimAll) ELSE DropNl(LTrim(v, TrimLine))
         IN [ss EXCEPT ![j].v = w, ![j].st.rs = (Len(v) # Len(w)), ![j].st.set = TRUE]
OmitLeft(ss, i, multi) == OmitLeftAt(ss, i - 1, multi)
OmitRight(ss, i, multi) == OmitRightAt(ss, i + 1, multi)
DidOmitLeft(ss, i, multi) ==     \* value of the omit-left operation
    LET j == i - 1 IN
    /\ j >= 1 /\ j <= Len(ss) /\ ss[j].t = "content" /\ (multi \/ ~ss[j].st.ls)
    /\ OmitLeftAt(ss, j, multi)[j].st.ls
ProgOmitRight(p, multi) == IF p.t = "none" THEN p ELSE [p EXCEPT !.ss = OmitRightAt(@, 1, multi)]
ProgOmitLeft(p, multi) == IF p.t = "none" THEN p ELSE [p EXCEPT !.ss = OmitLeftAt(@, Len(@), multi)]
ProgNextWs(p) == IsNextWs(p.ss, 0, FALSE)
ProgPrevWs(p) == IsPrevWs(p.ss, Len(p.ss) + 1, FALSE)

(* blanks at the end of the (original) line before a standalone partial *)
RECURSIVE IndentStart(_, _)
IndentStart(o, i) == IF i >= 1 /\ o[i] \in TrimLine THEN IndentStart(o, i - 1) ELSE i + 1
IndentOf(o0) == LET o == CStr(o0) IN Sub(o, IndentStart(o, Len(o)), Len(o))

BlockLike == {"block", "pblock"}
S_setdelim == B("hbsc_set_delimiters")

RECURSIVE AccProg(_, _, _), AccStmts(_, _, _, _), AccStmt(_, _), AccBlock(_, _)

(* apply f to the first / last branch program of a chained inverse (the program of its only block) *)
ChainFirst(inv, op(_)) ==
    IF inv.t = "none" THEN inv
    ELSE IF inv.chained /\ inv.ss # <<>> /\ inv.ss[1].t = "block" /\ inv.ss[1].prog.t # "none"
    THEN [inv EXCEPT !.ss[1].prog = op(@)]
    ELSE IF inv.chained THEN inv ELSE op(inv)
FirstInverse(inv) ==
    IF inv.t = "none" THEN inv
    ELSE IF inv.chained THEN (IF inv.ss # <<>> /\ inv.ss[1].t = "block" THEN inv.ss[1].prog ELSE None)
    ELSE inv

AccBlock(b, ign) ==
    LET p0 == IF b.prog.t = "none" THEN None ELSE AccProg(b.prog, FALSE, ign)
        i0 == IF b.inv.t = "none" THEN None ELSE AccProg(b.inv, FALSE, ign)
        swap == p0.t = "none"                 \* no main program: the inverse is treated as the program
        prog == IF swap THEN i0 ELSE p0
        inv == IF swap THEN None ELSE i0
        fi == FirstInverse(inv)
        st == [NoStrip EXCEPT !.set = TRUE, !.l = b.openS.l, !.r = b.closeS.r,
                  !.os = (prog.t # "none" /\ ProgNextWs(prog)),
                  !.cs = (LET q == IF fi.t # "none" THEN fi ELSE prog IN q.t # "none" /\ ProgPrevWs(q))]
        p1 == IF b.openS.r THEN ProgOmitRight(prog, TRUE) ELSE prog
        hasInv == inv.t # "none"
        p2 == IF hasInv THEN (IF b.invS.l THEN ProgOmitLeft(p1, TRUE) ELSE p1)
              ELSE (IF b.closeS.l THEN ProgOmitLeft(p1, TRUE) ELSE p1)
        OR1(q) == ProgOmitRight(q, FALSE)
        \* in a chain these belong to the nested block, whose own tags they are
        i1 == IF hasInv /\ b.invS.r THEN ProgOmitRight(inv, TRUE) ELSE inv
        i2 == IF hasInv /\ b.closeS.l THEN ProgOmitLeft(i1, TRUE) ELSE i1
        fi2 == FirstInverse(i2)
        alone == ~ign /\ hasInv /\ p2.t # "none" /\ fi2.t # "none" /\ ProgPrevWs(p2) /\ ProgNextWs(fi2)
        p3 == IF alone THEN ProgOmitLeft(p2, FALSE) ELSE p2
        i3 == IF alone THEN ChainFirst(i2, OR1) ELSE i2
    IN IF swap THEN [b EXCEPT !.inv = p3, !.st = st]
       ELSE [b EXCEPT !.prog = p3, !.inv = i3, !.st = st]

AccStmt(x, ign) ==
    CASE x.t \in {"block", "pblock", "raw"} -> AccBlock(x, ign)
      [] x.t = "mustache" -> IF x.path.t = "path" /\ x.path.orig = S_setdelim
                             THEN [x EXCEPT !.st.set = TRUE, !.st.is = TRUE] ELSE x
      [] x.t \in {"partial", "comment"} -> [x EXCEPT !.st.set = TRUE, !.st.is = TRUE]
      [] OTHER -> x

(* statement list ss, at statement i *)
AccStmts(ss0, i, root, ign) ==
    IF i > Len(ss0) THEN ss0
    ELSE
    LET cur == AccStmt(ss0[i], ign)
        ss1 == [ss0 EXCEPT ![i] = cur]
    IN IF ~cur.st.set THEN AccStmts(ss1, i + 1, root, ign)
       ELSE
       LET pw == IsPrevWs(ss1, i, root)
           nw == IsNextWs(ss1, i, root)
           os == cur.st.os /\ pw
           cs == cur.st.cs /\ nw
           is == cur.st.is /\ pw /\ nw
           ss2 == IF cur.st.r THEN OmitRight(ss1, i, TRUE) ELSE ss1
           ss3 == IF cur.st.l THEN OmitLeft(ss2, i, TRUE) ELSE ss2
           \* a tag alone on its line
           ss4 == IF ~ign /\ is
                  THEN LET a == OmitRight(ss3, i, FALSE)
                           did == DidOmitLeft(a, i, FALSE)
                           bb == OmitLeft(a, i, FALSE)
                       IN IF did /\ cur.t = "partial" THEN [bb EXCEPT ![i].indent = IndentOf(bb[i - 1].o)] ELSE bb
                  ELSE ss3
           ss5 == IF ~ign /\ os
                  THEN OmitLeft(IF cur.t \in BlockLike
                                THEN IF ss4[i].prog.t # "none" THEN [ss4 EXCEPT ![i].prog = ProgOmitRight(@, FALSE)]
                                     ELSE [ss4 EXCEPT ![i].inv = ProgOmitRight(@, FALSE)]
                                ELSE ss4, i, FALSE)
                  ELSE ss4
           ss6 == IF ~ign /\ cs
                  THEN LET a == OmitRight(ss5, i, FALSE) IN
                       IF cur.t \in BlockLike
                       THEN IF a[i].inv.t # "none" THEN [a EXCEPT ![i].inv = ProgOmitLeft(@, FALSE)]
                            ELSE [a EXCEPT ![i].prog = ProgOmitLeft(@, FALSE)]
                       ELSE a
                  ELSE ss5
       IN AccStmts(ss6, i + 1, root, ign)

AccProg(p, root, ign) == [p EXCEPT !.ss = AccStmts(@, 1, root, ign)]

(* text -> tree *)
Parse(s, ign) ==
    LET r == ParseTokens(Lex(s)) IN
    IF ~r.ok THEN r ELSE Ok(AccProg(r.n, TRUE, ign), r.p)

-----------------------------------------------------------------------------
(* the tree as nested tuples, for comparison with what the code produced *)
RECURSIVE Node(_)
Nodes(ns) == [i \in 1..Len(ns) |-> Node(ns[i])]
Node(n) ==
    CASE n.t = "none" -> <<"none">>
      [] n.t = "prog" -> <<"prog", n.chained, n.bp, Nodes(n.ss)>>
      [] n.t = "content" -> <<"content", n.v, n.o>>
      [] n.t = "comment" -> <<"comment", n.v>>
      [] n.t = "mustache" -> <<"mustache", n.unesc, n.isdec, Node(n.path), Nodes(n.params), Node(n.hash)>>
      [] n.t = "block" -> <<"block", n.isdec, Node(n.path), Nodes(n.params), Node(n.hash), Node(n.prog), Node(n.inv)>>
      [] n.t = "partial" -> <<"partial", Node(n.name), Nodes(n.params), Node(n.hash), n.indent>>
      [] n.t = "pblock" -> <<"pblock", Node(n.path), Nodes(n.params), Node(n.hash), Node(n.prog)>>
      [] n.t = "raw" -> <<"raw", Node(n.path), Nodes(n.params), Node(n.hash), Node(n.prog)>>
      [] n.t = "path" -> <<"path", n.data, n.depth, n.orig, n.parts>>
      [] n.t = "sexpr" -> <<"sexpr", Node(n.path), Nodes(n.params), Node(n.hash)>>
      [] n.t = "hash" -> <<"hash", [i \in 1..Len(n.pairs) |-> <<n.pairs[i][1], Node(n.pairs[i][2])>>]>>
      [] n.t = "str" -> <<"str", n.v, n.single>>
      [] n.t = "num" -> <<"num", n.v>>
      [] n.t = "bool" -> <<"bool", n.v>>
      [] n.t = "null" -> <<"null">>
      [] n.t = "undef" -> <<"undef">>
=============================================================================
