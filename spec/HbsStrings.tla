----------------------------- MODULE HbsStrings -----------------------------
(***************************************************************************)
(* The string functions, on byte strings, and variables that hold strings: *)
(* changing one is never seen through another that shares the memory.      *)
(***************************************************************************)
EXTENDS HbsValues

Octal3(c) == <<48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
EscLetter(c) == CASE c = 10 -> 110 [] c = 9 -> 116 [] c = 13 -> 114 [] c = 7 -> 97 [] c = 11 -> 118 [] c = 8 -> 98 [] c = 12 -> 102 [] OTHER -> 0
AddC1(c) == IF c < 32 \/ c > 126 THEN (IF EscLetter(c) # 0 THEN <<BSL, EscLetter(c)>> ELSE <<BSL>> \o Octal3(c)) ELSE <<BSL, c>>
RECURSIVE AddC(_, _, _)
AddC(s, W, i) == IF i > Len(s) THEN <<>> ELSE (IF s[i] \in W THEN AddC1(s[i]) ELSE <<s[i]>>) \o AddC(s, W, i + 1)

HexVal(c) == IF c \in Digits THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
RECURSIVE BaseVal(_, _, _, _)
BaseVal(s, i, j, b) == IF i > j THEN 0 ELSE BaseVal(s, i, j - 1, b) * b + HexVal(s[j])
UnEsc(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 97 -> 7 [] c = 118 -> 11 [] c = 98 -> 8 [] c = 102 -> 12 [] OTHER -> c
RECURSIVE StripC(_, _)
StripC(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF s[i] # BSL \/ i = Len(s) THEN <<s[i]>> \o StripC(s, i + 1)
    ELSE LET c == s[i + 1] IN
         IF c \in 48..55 THEN LET e == Min2(Span(s, i + 1, 48..55) - 1, i + 3) IN <<BaseVal(s, i + 1, e, 8) % 256>> \o StripC(s, e + 1)
         ELSE IF c = 120 /\ ChIn(s, i + 2, HexDigits) THEN LET e == Min2(Span(s, i + 2, HexDigits) - 1, i + 3) IN <<BaseVal(s, i + 2, e, 16)>> \o StripC(s, e + 1)
         ELSE <<UnEsc(c)>> \o StripC(s, i + 2)

(* trimming on the left stops at a NUL *)
TrimL(s, W) == LTrim(s, W \ {NUL})
Substr(s, a, e) == Sub(s, Min2(a, Min2(e, Len(s))) + 1, Min2(e, Len(s)))
(* position counted from 0, -1 when there is none *)
Pos(s, p) == IF s = <<>> \/ p = <<>> THEN -1 ELSE Find(s, 1, p) - 1
Reduce(s, old, new) == IF Len(new) > Len(old) THEN s ELSE Replace(s, old, new)
Fmt(s, n, d) == <<60>> \o CStr(s) \o <<124>> \o Sub(CStr(s), 1, Min2(n, Len(CStr(s)))) \o <<124>> \o IntB(d) \o <<62>>

StrInit(vals) == [i \in 1..4 |-> IF i <= Len(vals) THEN vals[i] ELSE <<>>]
StrStep(st, op) ==
    LET p == op[1]
        i == op[2] + 1
        s == st[i]
        b == op[3]
        Set(x) == <<[st EXCEPT ![i] = x], <<>>>>
        W == SeqRange(b)
    IN CASE p = "lit" -> Set(b)
         [] p = "share" -> <<[st EXCEPT ![op[3] + 1] = s], <<>>>>
         [] p = "val" -> <<st, s>>
         [] p = "cstr" -> <<st, <<1>>>>
         [] p = "eq" -> <<st, <<s = st[b + 1]>>>>
         [] p = "eqs" -> <<st, <<s = b>>>>
         [] p = "hash" -> <<st, <<TRUE>>>>
         [] p = "find" -> <<st, <<Pos(s, b)>>>>
         [] p = "htmlcat" -> Set(s \o Html(b))
         [] p = "html" -> Set(Html(b))
         [] p = "cat" -> Set(s \o b)
         [] p = "cats" -> Set(s \o st[b + 1])
         [] p = "fmt" -> Set(Fmt(s, op[3], op[4]))
         [] p = "fmtcat" -> Set(s \o <<60>> \o CStr(b) \o <<124>> \o IntB(op[4]) \o <<62>>)
         [] p = "trunc" -> Set(Substr(s, op[3], op[4]))
         [] p = "ltrim" -> Set(TrimL(s, W))
         [] p = "rtrim" -> Set(RTrim(s, W))
         [] p = "addc" -> Set(AddC(s, W, 1))
         [] p = "stripc" -> Set(StripC(s, 1))
         [] p = "replace" -> Set(Replace(s, b, op[4]))
         [] p = "reduce" -> Set(Reduce(s, b, op[4]))
         [] p = "indent" -> Set(Indent(s, b))
         [] p = "indcat" -> Set(s \o Indent(b, op[4]))
         [] p \in {"copy", "extend", "compact"} -> Set(s)
         [] p = "join" -> Set(Join(b, SubSeq(<<s, st[op[4] + 1], s>>, 1, IF op[5] > 3 THEN 3 ELSE op[5])))

(* laws *)
RoundTrip(s, W) == StripC(AddC(s, W \cup {BSL}, 1), 1) = s
=============================================================================
