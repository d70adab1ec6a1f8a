------------------------------ MODULE HbsLexer ------------------------------
(***************************************************************************)
(* The tokeniser: a state machine over (position, start-condition stack).  *)
(* LexStep is one rule application; Lex runs it to the end.  A token is    *)
(* [k |-> kind, v |-> bytes].  An INVALID token ends the sequence.         *)
(* Start conditions: "I" (text), "mu" (inside a mustache), "raw",          *)
(* "com" ({{!-- comment), "com1" ({{! comment).                            *)
(***************************************************************************)
EXTENDS HbsBytes

ContentStop == {NUL, LBRACE, BSL, CR, LF}
NL == {CR, LF}
ContentEnd(s, i) == Span(s, SpanNot(s, i, ContentStop), NL)

S_dmu == B("{{")
S_else == B("else")
S_close2 == B("}}")
S_open4 == B("{{{{")
S_close4 == B("}}}}")
S_raw_end == B("{{{{/")
S_dd == B("--")
S_bangdd == B("!--")
S_as == B("as")
S_true == B("true")
S_false == B("false")
S_null == B("null")
S_undefined == B("undefined")
S_bslb == <<BSL, 93>>
S_rb == B("]")

\* bytes that cannot occur in an identifier
NotIdc == {SP, CR, LF, TAB} \cup (33..35) \cup (37..44) \cup {46, 47} \cup (59..62) \cup {64}
             \cup (91..94) \cup {96} \cup (123..126)
Idc == (0..255) \ NotIdc
Lookahead == {61, TILDE, RBRACE, SP, CR, LF, TAB, 47, 46, 41, 124}
LitLookahead == {TILDE, RBRACE, SP, CR, LF, TAB, 41}

Tok(k, v) == [k |-> k, v |-> v]

(* escapes in quoted strings *)
HexVal(c) == IF c \in Digits THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
RECURSIVE Unescape(_, _)
Unescape(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF s[i] # BSL \/ i = Len(s) THEN <<s[i]>> \o Unescape(s, i + 1)
    ELSE LET c == s[i + 1] IN
         CASE c = 110 -> <<10>> \o Unescape(s, i + 2)
           [] c = 114 -> <<13>> \o Unescape(s, i + 2)
           [] c = 97  -> <<7>> \o Unescape(s, i + 2)
           [] c = 116 -> <<9>> \o Unescape(s, i + 2)
           [] c = 118 -> <<11>> \o Unescape(s, i + 2)
           [] c = 98  -> <<8>> \o Unescape(s, i + 2)
           [] c = 102 -> <<12>> \o Unescape(s, i + 2)
           [] c = BSL -> <<BSL>> \o Unescape(s, i + 2)
           [] c = 120 /\ ChIn(s, i + 2, HexDigits) ->
                IF ChIn(s, i + 3, HexDigits)
                THEN <<HexVal(s[i + 2]) * 16 + HexVal(s[i + 3])>> \o Unescape(s, i + 4)
                ELSE <<HexVal(s[i + 2])>> \o Unescape(s, i + 3)
           [] c \in 48..55 ->
                LET e == Min2(Span(s, i + 1, 48..55), i + 4)
                    v == IF e = i + 2 THEN s[i+1] - 48
                         ELSE IF e = i + 3 THEN (s[i+1] - 48) * 8 + (s[i+2] - 48)
                         ELSE (s[i+1] - 48) * 64 + (s[i+2] - 48) * 8 + (s[i+3] - 48)
                IN <<v % 256>> \o Unescape(s, e)
           [] OTHER -> <<c>> \o Unescape(s, i + 2)

(* end of a quoted run that starts at i with delimiter q: the position of the closing delimiter.
   A backslash before a delimiter escapes it, unless no later delimiter closes the run. 0: not closed. *)
RECURSIVE QuoteEnd(_, _, _, _)
QuoteEnd(s, i, q, fallback) ==
    IF i > Len(s) THEN fallback
    ELSE IF s[i] = q THEN i
    ELSE IF s[i] = BSL /\ ChAt(s, i + 1, q) THEN QuoteEnd(s, i + 2, q, i + 1)
    ELSE QuoteEnd(s, i + 1, q, fallback)

(* one step: [tok |-> <<>> or <<token>>, i |-> next position, st |-> next stack] *)
R(tok, i, st) == [tok |-> tok, i |-> i, st |-> st]
Pop(st) == SubSeq(st, 1, Len(st) - 1)

StepInitial(s, i, st) ==
    LET j == ContentEnd(s, i) IN
    IF HasAt(s, j, <<BSL, BSL, LBRACE, LBRACE>>)
    THEN R(<<Tok("CONTENT", Sub(s, i, j))>>, j + 2, Append(st, "mu"))
    ELSE IF j > i THEN R(<<Tok("CONTENT", Sub(s, i, j - 1))>>, j, st)
    ELSE IF HasAt(s, i, <<BSL, LBRACE, LBRACE>>)
    THEN LET k == ContentEnd(s, IF ChAt(s, i + 3, LBRACE) THEN i + 4 ELSE i + 3)
         IN R(<<Tok("CONTENT", Sub(s, i + 1, k - 1))>>, k, st)
    ELSE IF HasAt(s, i, S_dmu) THEN R(<<>>, i, Append(st, "mu"))
    ELSE IF s[i] \in {BSL, LBRACE} THEN R(<<Tok("CONTENT", <<s[i]>>)>>, i + 1, st)
    ELSE R(<<Tok("INVALID", <<>>)>>, Len(s) + 1, st)

StepRaw(s, i, st) ==
    IF HasAt(s, i, S_raw_end) /\ LET e == Span(s, i + 5, Idc) IN e > i + 5 /\ HasAt(s, e, S_close4)
    THEN LET e == Span(s, i + 5, Idc)
             st1 == Pop(st)
         IN IF LastOf(st1) = "raw" THEN R(<<Tok("CONTENT", Sub(s, i, e + 3))>>, e + 4, st1)
            ELSE R(<<Tok("END_RAW_BLOCK", Sub(s, i + 5, e - 1))>>, e + 4, st1)
    ELSE IF HasAt(s, i, S_open4) /\ i + 4 <= Len(s) /\ s[i + 4] # 47
    THEN R(<<Tok("CONTENT", S_open4)>>, i + 4, Append(st, "raw"))
    ELSE IF s[i] = LBRACE THEN R(<<Tok("CONTENT", <<LBRACE>>)>>, i + 1, st)
    ELSE IF s[i] = NUL THEN R(<<Tok("INVALID", <<>>)>>, Len(s) + 1, st)
    ELSE LET j == SpanNot(s, i, {NUL, LBRACE}) IN R(<<Tok("CONTENT", Sub(s, i, j - 1))>>, j, st)

(* end (exclusive) of a long comment: the first "--}}" or "--~}}" from position i on; 0 when there is none *)
RECURSIVE LongEnd(_, _)
LongEnd(s, i) == LET p == Find(s, i, S_dd) IN
    IF p = 0 THEN 0
    ELSE IF HasAt(s, p + 2, S_close2) THEN p + 4
    ELSE IF ChAt(s, p + 2, TILDE) /\ HasAt(s, p + 3, S_close2) THEN p + 5
    ELSE LongEnd(s, p + 1)

StepCom(s, i, st) == LET e == LongEnd(s, i) IN
    IF e = 0 THEN R(<<Tok("INVALID", <<>>)>>, Len(s) + 1, st)
    ELSE R(<<Tok("LONG_COMMENT", Sub(s, i, e - 1))>>, e, Pop(st))
StepCom1(s, i, st) == LET p == Find(s, i, S_close2) IN
    IF p = 0 THEN R(<<Tok("INVALID", <<>>)>>, Len(s) + 1, st)
    ELSE R(<<Tok("COMMENT", Sub(s, i, p + 1))>>, p + 2, Pop(st))

(* position after an optional ~ and "}}" at i; 0 when it is not there *)
CloseAt(s, i) == IF HasAt(s, i, S_close2) THEN i + 2
                 ELSE IF ChAt(s, i, TILDE) /\ HasAt(s, i + 1, S_close2) THEN i + 3 ELSE 0

StepOpen(s, i, st) ==
    IF HasAt(s, i, S_open4) THEN R(<<Tok("OPEN_RAW_BLOCK", S_open4)>>, i + 4, st)
    ELSE LET t == IF ChAt(s, i + 2, TILDE) THEN i + 3 ELSE i + 2
             c == IF t <= Len(s) THEN s[t] ELSE 0
             T(k, e) == R(<<Tok(k, Sub(s, i, e - 1))>>, e, st)
             w == Span(s, t, WsLex)
             inv == IF c = 94 THEN CloseAt(s, Span(s, t + 1, WsLex)) ELSE 0
             els == IF HasAt(s, w, S_else) THEN CloseAt(s, Span(s, w + 4, WsLex)) ELSE 0
         IN CASE c = 62 -> T("OPEN_PARTIAL", t + 1)
              [] c = 35 /\ ChAt(s, t + 1, 62) -> T("OPEN_PARTIAL_BLOCK", t + 2)
              [] c = 35 -> T("OPEN_BLOCK", IF ChAt(s, t + 1, 42) THEN t + 2 ELSE t + 1)
              [] c = 47 -> T("OPEN_ENDBLOCK", t + 1)
              [] inv # 0 -> R(<<Tok("INVERSE", Sub(s, i, inv - 1))>>, inv, Pop(st))
              [] els # 0 -> R(<<Tok("INVERSE", Sub(s, i, els - 1))>>, els, Pop(st))
              [] c = 94 -> T("OPEN_INVERSE", t + 1)
              [] HasAt(s, w, S_else) /\ w + 4 <= Len(s) /\ s[w + 4] \notin WordChars -> T("OPEN_INVERSE_CHAIN", w + 4)
              [] c = LBRACE -> T("OPEN_UNESCAPED", t + 1)
              [] c = 38 -> T("OPEN", t + 1)
              [] HasAt(s, t, S_bangdd) -> R(<<>>, i, Append(Pop(st), "com"))
              [] c = 33 -> R(<<>>, i, Append(Pop(st), "com1"))
              [] c = 42 -> T("OPEN", t + 1)
              [] OTHER -> T("OPEN", t)

NumEnd(s, i) ==   \* end of -?[0-9]+(.[0-9]+)? followed by a literal lookahead; 0 when not there
    LET b == IF ChAt(s, i, 45) THEN i + 1 ELSE i
        e == Span(s, b, Digits)
        f == IF ChAt(s, e, 46) THEN Span(s, e + 1, Digits) ELSE 0
    IN IF e = b THEN 0
       ELSE IF f > e + 1 /\ ChIn(s, f, LitLookahead) THEN f
       ELSE IF ChIn(s, e, LitLookahead) THEN e ELSE 0

StepMu(s, i, st) ==
    LET c == s[i]
        One(k) == R(<<Tok(k, <<c>>)>>, i + 1, st)
        Lit(k, w) == R(<<Tok(k, w)>>, i + Len(w), st)
        LitAt(w) == HasAt(s, i, w) /\ ChIn(s, i + Len(w), LitLookahead)
        Bad == R(<<Tok("INVALID", <<>>)>>, Len(s) + 1, st)
    IN
    CASE HasAt(s, i, S_dmu) -> StepOpen(s, i, st)
      [] HasAt(s, i, S_close4) -> R(<<Tok("CLOSE_RAW_BLOCK", S_close4)>>, i + 4, Append(Pop(st), "raw"))
      [] c = RBRACE /\ CloseAt(s, i + 1) # 0 -> LET e == CloseAt(s, i + 1) IN
            R(<<Tok("CLOSE_UNESCAPED", Sub(s, i, e - 1))>>, e, Pop(st))
      [] CloseAt(s, i) # 0 -> LET e == CloseAt(s, i) IN R(<<Tok("CLOSE", Sub(s, i, e - 1))>>, e, Pop(st))
      [] c \in WsLex -> R(<<>>, Span(s, i, WsLex), st)
      [] c = 40 -> One("OPEN_SEXPR")
      [] c = 41 -> One("CLOSE_SEXPR")
      [] c = 61 -> One("EQUALS")
      [] c = 64 -> One("DATA")
      [] c = 124 -> One("CLOSE_BLOCK_PARAMS")
      [] c = 46 /\ ChAt(s, i + 1, 46) -> R(<<Tok("ID", <<46, 46>>)>>, i + 2, st)
      [] c = 46 /\ ChIn(s, i + 1, Lookahead) -> One("ID")
      [] c \in {46, 47} -> One("SEP")
      [] c = DQ \/ c = SQ ->
            LET e == QuoteEnd(s, i + 1, c, 0) IN
            IF e = 0 THEN Bad
            ELSE R(<<Tok(IF c = DQ THEN "STRING" ELSE "SINGLE_STRING", Unescape(Sub(s, i + 1, e - 1), 1))>>, e + 1, st)
      [] c = 91 ->
            LET e == QuoteEnd(s, i + 1, 93, 0) IN
            IF e = 0 THEN Bad ELSE R(<<Tok("ID", Replace(Sub(s, i, e), S_bslb, S_rb))>>, e + 1, st)
      [] LET w == Span(s, i + 2, WsLex) IN HasAt(s, i, S_as) /\ w > i + 2 /\ ChAt(s, w, 124) ->
            LET w == Span(s, i + 2, WsLex) IN R(<<Tok("OPEN_BLOCK_PARAMS", Sub(s, i, w))>>, w + 1, st)
      [] LitAt(S_true) -> Lit("BOOLEAN", S_true)
      [] LitAt(S_false) -> Lit("BOOLEAN", S_false)
      [] LitAt(S_undefined) -> Lit("UNDEFINED", S_undefined)
      [] LitAt(S_null) -> Lit("NUL", S_null)
      [] NumEnd(s, i) # 0 -> R(<<Tok("NUMBER", Sub(s, i, NumEnd(s, i) - 1))>>, NumEnd(s, i), st)
      [] LET e == Span(s, i, Idc) IN e > i /\ ChIn(s, e, Lookahead) ->
            LET e == Span(s, i, Idc) IN R(<<Tok("ID", Sub(s, i, e - 1))>>, e, st)
      [] OTHER -> Bad

LexStep(s, i, st) ==
    CASE LastOf(st) = "I" -> StepInitial(s, i, st)
      [] LastOf(st) = "mu" -> StepMu(s, i, st)
      [] LastOf(st) = "raw" -> StepRaw(s, i, st)
      [] LastOf(st) = "com" -> StepCom(s, i, st)
      [] OTHER -> StepCom1(s, i, st)

RECURSIVE LexFrom(_, _, _, _)
LexFrom(s, i, st, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET r == LexStep(s, i, st) IN LexFrom(s, r.i, r.st, acc \o r.tok)

Lex(s) == LexFrom(s, 1, <<"I">>, <<>>)

(* adjacent CONTENT tokens merged: where one run of text is split is not observable *)
RECURSIVE MergeContent(_)
MergeContent(ts) ==
    IF Len(ts) < 2 THEN ts
    ELSE IF ts[1].k = "CONTENT" /\ ts[2].k = "CONTENT"
    THEN MergeContent(<<Tok("CONTENT", ts[1].v \o ts[2].v)>> \o SubSeq(ts, 3, Len(ts)))
    ELSE <<ts[1]>> \o MergeContent(Tail(ts))

(* what the token list operation of the API shows: tokens up to the first invalid one *)
KindShown(k) == CASE k = "LONG_COMMENT" -> "COMMENT" [] k = "SINGLE_STRING" -> "STRING" [] k = "NUL" -> "NULL" [] OTHER -> k
RECURSIVE LexShown(_)
LexShown(ts) == IF ts = <<>> \/ Head(ts).k = "INVALID" THEN <<>>
                ELSE <<Tok(KindShown(Head(ts).k), Head(ts).v)>> \o LexShown(Tail(ts))
=============================================================================
