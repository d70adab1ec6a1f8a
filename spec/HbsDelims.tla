------------------------------ MODULE HbsDelims ------------------------------
(***************************************************************************)
(* Set-delimiter tags (compat mode): a template with changing delimiters   *)
(* is rewritten to the same template with {{ and }}.  The result is        *)
(* [ok, s] or [ok |-> FALSE, e].                                           *)
(***************************************************************************)
EXTENDS HbsBytes
DefOpen == <<123, 123>>
DefClose == <<125, 125>>
DErr == [ok |-> FALSE, e |-> 1, s |-> <<>>]
AddSlash(s) == Replace(s, <<34>>, <<92, 34>>)
SetTag(o, c) == B("{{hbsc_set_delimiters \"") \o AddSlash(o) \o B("\" \"") \o AddSlash(c) \o B("\"}}")
RECURSIVE DText(_, _, _, _, _), DTag(_, _, _, _, _)
(* in text at i *)
DText(s, i, o, c, acc) ==
    LET left == Len(s) - i + 1 IN
    IF left <= 0 THEN [ok |-> TRUE, s |-> acc, e |-> 0]
    ELSE IF s[i] = BSL THEN DText(s, i + 2, o, c, acc \o Sub(s, i, Min2(i + 1, Len(s))))
    ELSE IF left >= Len(o) + Len(c) + 4 /\ HasAt(s, i, o) /\ s[i + Len(o)] = 61
    THEN LET a == Span(s, i + Len(o) + 1, {SP})              \* the new opening delimiter
             b == SpanNot(s, a, {SP})
             d == Span(s, b, {SP})                           \* the new closing delimiter
             q == SpanNot(s, d, {61})
             no == Sub(s, a, b - 1)
             nc == RTrim(Sub(s, d, q - 1), {SP})
         IN IF b > Len(s) \/ q > Len(s) \/ nc = <<>> \/ ~HasAt(s, q + 1, c) THEN DErr
            ELSE DText(s, q + 1 + Len(c), no, nc, acc \o SetTag(no, nc))
    ELSE IF left >= Len(o) + Len(c) + 1 /\ HasAt(s, i, o) THEN DTag(s, i + Len(o), o, c, acc \o DefOpen)
    ELSE IF o # DefOpen /\ HasAt(s, i, DefOpen) THEN DText(s, i + 2, o, c, acc \o <<BSL>> \o DefOpen)
    ELSE DText(s, i + 1, o, c, Append(acc, s[i]))
(* inside a tag *)
DTag(s, i, o, c, acc) ==
    LET p == Find(s, i, c) IN
    IF p = 0 \/ i > Len(s) THEN [ok |-> TRUE, s |-> acc \o Sub(s, i, Len(s)), e |-> 0]
    ELSE DText(s, p + Len(c), o, c, acc \o Sub(s, i, p - 1) \o DefClose)
Delims(s, o, c) == DText(s, 1, o, c, <<>>)
=============================================================================
