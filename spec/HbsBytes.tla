------------------------------ MODULE HbsBytes ------------------------------
(***************************************************************************)
(* Byte strings.  The system works on byte strings; a byte string is a     *)
(* sequence of integers 0..255 here.  B("..") turns a TLA+ string into one.*)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiChars == {SubSeq(Ascii, i, i) : i \in 1..95}
Ord == [c \in AsciiChars |-> 31 + CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c]
B(str) == [i \in 1..Len(str) |-> Ord[SubSeq(str, i, i)]]

NUL == 0
TAB == 9
LF == 10
VT == 11
CR == 13
SP == 32
DQ == 34
SQ == 39
BSL == 92
LBRACE == 123
RBRACE == 125
TILDE == 126

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Digits == 48..57
Upper == 65..90
Lower == 97..122
WordChars == Digits \cup Upper \cup Lower \cup {95}
HexDigits == Digits \cup (65..70) \cup (97..102)
WsLex == {SP, TAB, CR, LF}

(* does s have p at (1-based) position i *)
HasAt(s, i, p) == /\ i + Len(p) - 1 <= Len(s)
                  /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
ChAt(s, i, c) == i >= 1 /\ i <= Len(s) /\ s[i] = c
ChIn(s, i, C) == i >= 1 /\ i <= Len(s) /\ s[i] \in C

(* first position >= i whose byte is not in C (Len(s)+1 when there is none) *)
RECURSIVE Span(_, _, _)
Span(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN Span(s, i + 1, C) ELSE i
RECURSIVE SpanNot(_, _, _)
SpanNot(s, i, C) == IF i <= Len(s) /\ s[i] \notin C THEN SpanNot(s, i + 1, C) ELSE i

(* first position >= i at which p occurs, 0 when there is none *)
RECURSIVE Find(_, _, _)
Find(s, i, p) == IF i + Len(p) - 1 > Len(s) THEN 0
                 ELSE IF HasAt(s, i, p) THEN i ELSE Find(s, i + 1, p)

Sub(s, i, j) == IF j < i THEN <<>> ELSE SubSeq(s, i, j)

RECURSIVE LTrim(_, _)
LTrim(s, C) == IF s # <<>> /\ Head(s) \in C THEN LTrim(Tail(s), C) ELSE s
RECURSIVE RTrim(_, _)
RTrim(s, C) == IF s # <<>> /\ s[Len(s)] \in C THEN RTrim(SubSeq(s, 1, Len(s) - 1), C) ELSE s

RECURSIVE FoldL(_, _, _)
FoldL(op(_, _), acc, seq) == IF seq = <<>> THEN acc ELSE FoldL(op, op(acc, Head(seq)), Tail(seq))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE Join(_, _)
Join(sep, ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(sep, Tail(ss))

(* the part of a byte string a C string function sees *)
CStr(s) == LET e == SpanNot(s, 1, {NUL}) IN Sub(s, 1, e - 1)

(* decimal rendering *)
RECURSIVE NatB(_)
NatB(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatB(n \div 10), 48 + (n % 10))
IntB(n) == IF n >= 0 THEN NatB(n) ELSE <<45>> \o (IF n > -10 THEN NatB(0 - n) ELSE LET q == 0 - ((n + 9) \div 10) IN NatB(q) \o NatB(0 - (n + 10 * q)))

RECURSIVE DigitsVal(_, _, _)
DigitsVal(s, i, acc) == IF i <= Len(s) /\ s[i] \in Digits THEN DigitsVal(s, i + 1, acc * 10 + (s[i] - 48)) ELSE acc

(* all of old replaced by new, left to right *)
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(s, i, old, new) ==
    LET p == Find(s, i, old)
    IN IF p = 0 THEN Sub(s, i, Len(s)) ELSE Sub(s, i, p - 1) \o new \o ReplaceFrom(s, p + Len(old), old, new)
Replace(s, old, new) == IF old = <<>> THEN s ELSE ReplaceFrom(s, 1, old, new)

SeqRange(s) == {s[i] : i \in 1..Len(s)}
LastOf(s) == s[Len(s)]
(* results of a history *)
RunOps(F(_, _), st, ops) == FoldLeft(LAMBDA acc, op : LET r == F(acc[1], op) IN <<r[1], Append(acc[2], r[2])>>, <<st, <<>>>>, ops)[2]
=============================================================================
