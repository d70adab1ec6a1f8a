------------------------------ MODULE HbsParser ------------------------------
(***************************************************************************)
(* The grammar: token sequence -> syntax tree, or an error number.         *)
(* Results are [ok |-> TRUE, n |-> node, p |-> next token position] or     *)
(* [ok |-> FALSE, e |-> error number].                                     *)
(***************************************************************************)
EXTENDS HbsLexer

E_ERROR == 1
E_PARSE == 4

Ok(n, p) == [ok |-> TRUE, n |-> n, p |-> p]
Err(e) == [ok |-> FALSE, e |-> e, n |-> <<>>, p |-> 0]

None == [t |-> "none"]
NoStrip == [set |-> FALSE, l |-> FALSE, r |-> FALSE, os |-> FALSE, cs |-> FALSE, is |-> FALSE, ls |-> FALSE, rs |-> FALSE]
StripLR(l, r) == [NoStrip EXCEPT !.set = TRUE, !.l = l, !.r = r]
\* flags carried by an opening/closing delimiter pair
FlagL(open) == ChAt(open, 3, TILDE)
FlagR(close) == Len(close) >= 3 /\ close[Len(close) - 2] = TILDE
StripOf(open, close) == StripLR(FlagL(open), FlagR(close))

MkProg(ss, bp, chained) == [t |-> "prog", ss |-> ss, bp |-> bp, chained |-> chained]
EmptyProg == MkProg(<<>>, <<>>, FALSE)
MkContent(v) == [t |-> "content", v |-> v, o |-> v, st |-> NoStrip]

S_this == B("this")
S_dot == B(".")
S_dotdot == B("..")

K(ts, p) == IF p <= Len(ts) THEN ts[p].k ELSE "END"

-----------------------------------------------------------------------------
(* comments lose their delimiters *)
StripComment(c) ==
    LET a0 == IF ChAt(c, 3, TILDE) THEN 4 ELSE 3      \* position of the !
        a1 == a0 + 1
        a2 == IF ChAt(c, a1, 45) THEN a1 + 1 ELSE a1
        a3 == IF ChAt(c, a2, 45) THEN a2 + 1 ELSE a2
        e0 == Len(c) - 2
        e1 == IF e0 >= 1 /\ c[e0] = TILDE THEN e0 - 1 ELSE e0
        e2 == IF e1 >= 1 /\ c[e1] = 45 THEN e1 - 1 ELSE e1
        e3 == IF e2 >= 1 /\ c[e2] = 45 THEN e2 - 1 ELSE e2
    IN Sub(c, a3, e3)

-----------------------------------------------------------------------------
(* paths *)
StripLit(v) == IF v # <<>> /\ v[1] = 91 /\ v[Len(v)] = 93 THEN Sub(v, 2, Len(v) - 1) ELSE v

(* segments: sequence of <<separator, text>>; the first has an empty separator *)
RECURSIVE PathFold(_, _, _)
PathFold(segs, i, acc) ==
    IF i > Len(segs) \/ ~acc.ok THEN acc
    ELSE LET raw == segs[i][2]
             part == StripLit(raw)
             lit == part # raw
             special == ~lit /\ part \in {S_dotdot, S_dot, S_this}
             orig == acc.orig \o segs[i][1] \o part
             txt == acc.txt \o segs[i][1] \o (IF lit /\ ~special THEN <<91>> \o Replace(part, S_rb, S_bslb) \o <<93>> ELSE part)
         IN IF special
            THEN IF Len(acc.parts) > 0 THEN [acc EXCEPT !.ok = FALSE]
                 ELSE PathFold(segs, i + 1, [acc EXCEPT !.orig = orig, !.txt = txt, !.depth = IF part = S_dotdot THEN @ + 1 ELSE @])
            ELSE PathFold(segs, i + 1, [acc EXCEPT !.orig = orig, !.txt = txt, !.parts = Append(@, part), !.seps = Append(@, segs[i][1])])

RECURSIVE Segs(_, _, _)
Segs(ts, p, acc) ==   \* p is at a possible SEP
    IF K(ts, p) = "SEP"
    THEN IF K(ts, p + 1) = "ID" THEN Segs(ts, p + 2, Append(acc, <<ts[p].v, ts[p + 1].v>>)) ELSE Err(E_PARSE)
    ELSE Ok(acc, p)

ParsePath(ts, p, data) ==
    IF K(ts, p) # "ID" THEN Err(E_PARSE)
    ELSE LET r == Segs(ts, p + 1, << <<<<>>, ts[p].v>> >>) IN
         IF ~r.ok THEN r
         ELSE LET f == PathFold(r.n, 1, [ok |-> TRUE, orig |-> IF data THEN <<64>> ELSE <<>>, txt |-> IF data THEN <<64>> ELSE <<>>, parts |-> <<>>, seps |-> <<>>, depth |-> 0]) IN
              IF ~f.ok THEN Err(E_ERROR)
              ELSE Ok([t |-> "path", data |-> data, depth |-> f.depth, orig |-> f.orig, txt |-> f.txt, parts |-> f.parts, seps |-> f.seps], r.p)

ParseName(ts, p) ==
    CASE K(ts, p) = "ID" -> ParsePath(ts, p, FALSE)
      [] K(ts, p) = "DATA" -> ParsePath(ts, p + 1, TRUE)
      [] K(ts, p) = "STRING" -> Ok([t |-> "str", v |-> ts[p].v, single |-> FALSE], p + 1)
      [] K(ts, p) = "SINGLE_STRING" -> Ok([t |-> "str", v |-> ts[p].v, single |-> TRUE], p + 1)
      [] K(ts, p) = "NUMBER" -> Ok([t |-> "num", v |-> ts[p].v], p + 1)
      [] K(ts, p) = "BOOLEAN" -> Ok([t |-> "bool", v |-> ts[p].v], p + 1)
      [] K(ts, p) = "UNDEFINED" -> Ok([t |-> "undef", v |-> ts[p].v], p + 1)
      [] K(ts, p) = "NUL" -> Ok([t |-> "null", v |-> ts[p].v], p + 1)
      [] OTHER -> Err(E_PARSE)

NameStart == {"ID", "DATA", "STRING", "SINGLE_STRING", "NUMBER", "BOOLEAN", "UNDEFINED", "NUL"}
IsHash(ts, p) == K(ts, p) = "ID" /\ K(ts, p + 1) = "EQUALS"

RECURSIVE ParseParam(_, _), ParseParams(_, _, _), ParsePairs(_, _, _), ParseCall(_, _)
ParseParam(ts, p) ==
    IF K(ts, p) = "OPEN_SEXPR"
    THEN LET r == ParseCall(ts, p + 1) IN
         IF ~r.ok THEN r
         ELSE IF K(ts, r.p) # "CLOSE_SEXPR" THEN Err(E_PARSE)
         ELSE Ok([t |-> "sexpr", path |-> r.n.path, params |-> r.n.params, hash |-> r.n.hash], r.p + 1)
    ELSE ParseName(ts, p)

ParseParams(ts, p, acc) ==
    IF (K(ts, p) \in NameStart \/ K(ts, p) = "OPEN_SEXPR") /\ ~IsHash(ts, p)
    THEN LET r == ParseParam(ts, p) IN IF ~r.ok THEN r ELSE ParseParams(ts, r.p, Append(acc, r.n))
    ELSE Ok(acc, p)

ParsePairs(ts, p, acc) ==
    IF IsHash(ts, p)
    THEN LET r == ParseParam(ts, p + 2) IN
         IF ~r.ok THEN r ELSE ParsePairs(ts, r.p, Append(acc, <<ts[p].v, r.n>>))
    ELSE Ok(acc, p)

(* params and hash; the node is [params, hash] with hash None when absent *)
ParseArgs(ts, p) ==
    LET a == ParseParams(ts, p, <<>>) IN
    IF ~a.ok THEN a
    ELSE LET h == ParsePairs(ts, a.p, <<>>) IN
         IF ~h.ok THEN h
         ELSE Ok([params |-> a.n, hash |-> IF h.n = <<>> THEN None ELSE [t |-> "hash", pairs |-> h.n]], h.p)

(* helper_name params? hash? *)
ParseCall(ts, p) ==
    LET n == ParseName(ts, p) IN
    IF ~n.ok THEN n
    ELSE LET a == ParseArgs(ts, n.p) IN
         IF ~a.ok THEN a ELSE Ok([path |-> n.n, params |-> a.n.params, hash |-> a.n.hash, bp |-> <<>>], a.p)

(* ... block_params? *)
ParseCallBP(ts, p) ==
    LET c == ParseCall(ts, p) IN
    IF ~c.ok \/ K(ts, c.p) # "OPEN_BLOCK_PARAMS" THEN c
    ELSE IF K(ts, c.p + 1) # "ID" THEN Err(E_PARSE)
    ELSE IF K(ts, c.p + 2) = "CLOSE_BLOCK_PARAMS" THEN Ok([c.n EXCEPT !.bp = <<ts[c.p + 1].v>>], c.p + 3)
    ELSE IF K(ts, c.p + 2) = "ID" /\ K(ts, c.p + 3) = "CLOSE_BLOCK_PARAMS"
    THEN Ok([c.n EXCEPT !.bp = <<ts[c.p + 1].v, ts[c.p + 2].v>>], c.p + 4)
    ELSE Err(E_PARSE)

ParsePartialCall(ts, p) ==
    LET n == ParseParam(ts, p) IN
    IF ~n.ok THEN n
    ELSE LET a == ParseArgs(ts, n.p) IN
         IF ~a.ok THEN a ELSE Ok([name |-> n.n, params |-> a.n.params, hash |-> a.n.hash], a.p)

(* the name a literal or path is compared by *)
NameText(n) == CASE n.t = "path" -> n.orig
                 [] n.t = "sexpr" -> <<>>
                 [] OTHER -> n.v

-----------------------------------------------------------------------------
(* an opening tag "X call }}" at p; node: call + strip + opening text *)
ParseOpenTag(ts, p) ==
    LET c == ParseCallBP(ts, p + 1) IN
    IF ~c.ok THEN c
    ELSE IF K(ts, c.p) # "CLOSE" THEN Err(E_PARSE)
    ELSE Ok([call |-> c.n, st |-> StripOf(ts[p].v, ts[c.p].v), open |-> ts[p].v], c.p + 1)

ParseCloseTag(ts, p) ==
    IF K(ts, p) # "OPEN_ENDBLOCK" THEN Err(E_PARSE)
    ELSE LET n == ParseName(ts, p + 1) IN
         IF ~n.ok THEN n
         ELSE IF K(ts, n.p) # "CLOSE" THEN Err(E_PARSE)
         ELSE Ok([path |-> n.n, st |-> StripOf(ts[p].v, ts[n.p].v)], n.p + 1)

(* an else part: prog, chained, strip *)
MkInverse(prog, chained, st) == [t |-> "inverse", prog |-> prog, chained |-> chained, st |-> st]

MkBlock(call, prog, inv, os, is, cs, dec) ==
    [t |-> "block", isdec |-> dec, path |-> call.path, params |-> call.params, hash |-> call.hash,
     prog |-> prog, inv |-> inv, openS |-> os, invS |-> is, closeS |-> cs, st |-> NoStrip]

(* every block of a chain is closed by the outermost block's close tag *)
RECURSIVE CloseChain(_, _)
CloseChain(inv, cs) ==
    IF inv.t = "prog" /\ inv.chained /\ inv.ss # <<>> /\ inv.ss[1].t = "block"
    THEN [inv EXCEPT !.ss[1].closeS = cs, !.ss[1].inv = CloseChain(@, cs)] ELSE inv

(* open: from ParseOpenTag; prog: program node or None; inv: inverse node or None; close strip *)
PrepareBlock(open, prog0, inv, closeSt, inverted, dec) ==
    LET prog == [(IF prog0.t = "none" THEN EmptyProg ELSE prog0) EXCEPT !.bp = open.call.bp]
        ip0 == IF inv.t = "none" THEN None ELSE inv.prog
        ip == IF inv.t # "none" /\ inv.chained THEN CloseChain(ip0, closeSt) ELSE ip0
        is == IF inv.t = "none" THEN NoStrip ELSE inv.st
    IN IF dec /\ inv.t # "none" THEN Err(E_PARSE)
       ELSE IF inverted THEN Ok(MkBlock(open.call, ip, prog, open.st, is, closeSt, dec), 0)
       ELSE Ok(MkBlock(open.call, prog, ip, open.st, is, closeSt, dec), 0)

StmtStart == {"CONTENT", "COMMENT", "LONG_COMMENT", "OPEN", "OPEN_UNESCAPED", "OPEN_BLOCK", "OPEN_INVERSE",
              "OPEN_RAW_BLOCK", "OPEN_PARTIAL", "OPEN_PARTIAL_BLOCK"}

RECURSIVE ParseStmts(_, _, _), ParseStmt(_, _), ParseBody(_, _, _, _), ParseElse(_, _), ContentRun(_, _, _)

ContentRun(ts, p, acc) == IF K(ts, p) = "CONTENT" THEN ContentRun(ts, p + 1, acc \o ts[p].v) ELSE Ok(acc, p)

ParseStmts(ts, p, acc) ==
    IF K(ts, p) \notin StmtStart THEN Ok(acc, p)
    ELSE LET r == ParseStmt(ts, p) IN IF ~r.ok THEN r ELSE ParseStmts(ts, r.p, Append(acc, r.n))

(* optional program: None when there is no statement *)
ParseProg(ts, p) ==
    LET r == ParseStmts(ts, p, <<>>) IN
    IF ~r.ok THEN r ELSE Ok(IF r.n = <<>> THEN None ELSE MkProg(r.n, <<>>, FALSE), r.p)

(* optional chain of else parts: an inverse node or None *)
ParseElse(ts, p) ==
    CASE K(ts, p) = "INVERSE" ->
            LET b == ParseProg(ts, p + 1) IN
            IF ~b.ok THEN b
            ELSE Ok(MkInverse(IF b.n.t = "none" THEN EmptyProg ELSE b.n, FALSE, StripOf(ts[p].v, ts[p].v)), b.p)
      [] K(ts, p) = "OPEN_INVERSE_CHAIN" ->
            LET o == ParseOpenTag(ts, p) IN
            IF ~o.ok THEN o
            ELSE LET b == ParseProg(ts, o.p) IN
                 IF ~b.ok THEN b
                 ELSE LET c == ParseElse(ts, b.p) IN
                      IF ~c.ok THEN c
                      ELSE LET blk == PrepareBlock(o.n, b.n, c.n, IF c.n.t = "none" THEN NoStrip ELSE c.n.st, FALSE, FALSE) IN
                           IF ~blk.ok THEN blk
                           ELSE Ok(MkInverse(MkProg(<<blk.n>>, <<>>, TRUE), TRUE, o.n.st), c.p)
      [] OTHER -> Ok(None, p)

ParseBody(ts, o, inverted, dec) ==
    LET b == ParseProg(ts, o.p) IN
    IF ~b.ok THEN b
    ELSE LET c == ParseElse(ts, b.p) IN
         IF ~c.ok THEN c
         ELSE LET e == ParseCloseTag(ts, c.p) IN
              IF ~e.ok THEN e
              ELSE IF NameText(o.n.call.path) # NameText(e.n.path) THEN Err(E_PARSE)
              ELSE LET blk == PrepareBlock(o.n, b.n, c.n, e.n.st, inverted, dec) IN
                   IF ~blk.ok THEN blk ELSE Ok(blk.n, e.p)

ParseStmt(ts, p) ==
    LET k == K(ts, p) IN
    CASE k = "CONTENT" -> LET r == ContentRun(ts, p, <<>>) IN Ok(MkContent(r.n), r.p)
      [] k \in {"COMMENT", "LONG_COMMENT"} ->
            Ok([t |-> "comment", v |-> StripComment(ts[p].v), long |-> (k = "LONG_COMMENT"), st |-> StripOf(ts[p].v, ts[p].v)], p + 1)
      [] k \in {"OPEN", "OPEN_UNESCAPED"} ->
            LET c == ParseCall(ts, p + 1)
                op == ts[p].v
                ch == IF Len(op) >= 4 THEN op[4] ELSE IF Len(op) = 3 THEN op[3] ELSE 0
            IN IF ~c.ok THEN c
               ELSE IF K(ts, c.p) # (IF k = "OPEN" THEN "CLOSE" ELSE "CLOSE_UNESCAPED") THEN Err(E_PARSE)
               ELSE Ok([t |-> "mustache", unesc |-> IF ch = LBRACE THEN 1 ELSE IF ch = 38 THEN 3 ELSE 0,
                        isdec |-> 42 \in SeqRange(op), path |-> c.n.path, params |-> c.n.params, hash |-> c.n.hash,
                        st |-> StripOf(op, ts[c.p].v)], c.p + 1)
      [] k = "OPEN_PARTIAL" ->
            LET c == ParsePartialCall(ts, p + 1) IN
            IF ~c.ok THEN c
            ELSE IF K(ts, c.p) # "CLOSE" THEN Err(E_PARSE)
            ELSE Ok([t |-> "partial", name |-> c.n.name, params |-> c.n.params, hash |-> c.n.hash, indent |-> <<>>,
                     st |-> StripOf(ts[p].v, ts[c.p].v)], c.p + 1)
      [] k = "OPEN_PARTIAL_BLOCK" ->
            LET c == ParsePartialCall(ts, p + 1) IN
            IF ~c.ok THEN c
            ELSE IF K(ts, c.p) # "CLOSE" THEN Err(E_PARSE)
            ELSE LET b == ParseProg(ts, c.p + 1) IN
                 IF ~b.ok THEN b
                 ELSE LET e == ParseCloseTag(ts, b.p) IN
                      IF ~e.ok THEN e
                      ELSE IF NameText(c.n.name) # NameText(e.n.path) THEN Err(E_PARSE)
                      ELSE Ok([t |-> "pblock", path |-> c.n.name, params |-> c.n.params, hash |-> c.n.hash,
                               prog |-> IF b.n.t = "none" THEN EmptyProg ELSE b.n, inv |-> None,
                               openS |-> StripOf(ts[p].v, ts[c.p].v), invS |-> NoStrip, closeS |-> e.n.st,
                               st |-> NoStrip], e.p)
      [] k = "OPEN_BLOCK" ->
            LET o == ParseOpenTag(ts, p) IN IF ~o.ok THEN o ELSE ParseBody(ts, o, FALSE, 42 \in SeqRange(o.n.open))
      [] k = "OPEN_INVERSE" ->
            LET o == ParseOpenTag(ts, p) IN IF ~o.ok THEN o ELSE ParseBody(ts, o, TRUE, FALSE)
      [] k = "OPEN_RAW_BLOCK" ->
            LET c == ParseCallBP(ts, p + 1) IN
            IF ~c.ok THEN c
            ELSE IF K(ts, c.p) # "CLOSE_RAW_BLOCK" THEN Err(E_PARSE)
            ELSE LET b == ContentRun(ts, c.p + 1, <<>>) IN
                 IF K(ts, b.p) # "END_RAW_BLOCK" THEN Err(E_PARSE)
                 ELSE IF NameText(c.n.path) # ts[b.p].v THEN Err(E_ERROR)
                 ELSE Ok([t |-> "raw", path |-> c.n.path, params |-> c.n.params, hash |-> c.n.hash,
                          prog |-> MkProg(<<MkContent(b.n)>>, <<>>, FALSE), inv |-> None,
                          openS |-> NoStrip, invS |-> NoStrip, closeS |-> NoStrip, st |-> NoStrip], b.p + 1)
      [] OTHER -> Err(E_PARSE)

(* the whole template, before whitespace control *)
ParseTokens(ts) ==
    LET r == ParseStmts(ts, 1, <<>>) IN
    IF ~r.ok THEN r
    ELSE IF K(ts, r.p) # "END" THEN Err(E_PARSE)
    ELSE Ok(MkProg(r.n, <<>>, FALSE), r.p)
=============================================================================
