-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of Unicode code points.                               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
             31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]
\* the code points of a TLA+ string of printable ASCII characters
Codes(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

TAB == 9
LF  == 10
CR  == 13
SP  == 32
QUOTE == 34
HASH == 35
COMMA == 44
COLON == 58
BACKSLASH == 92

\* Unicode white space
SpaceSet == (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
IsSpace(c) == c \in SpaceSet
IsBlank(c) == c \in {9, 10, 12, 13, 32}          \* the white space of PO syntax
IsDigit(c) == c \in 48..57
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
UpperAll(s) == [i \in 1..Len(s) |-> Upper(s[i])]
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]

\* first / last position of a character satisfying P, 0 if there is none
FirstAt(s, P(_)) == SelectInSeq(s, P)
LastAt(s, P(_)) == SelectLastInSeq(s, P)
IndexOf(s, c) == SelectInSeq(s, LAMBDA x : x = c)
LastIndexOf(s, c) == SelectLastInSeq(s, LAMBDA x : x = c)

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))

TrimBy(s, P(_)) == LET N(x) == ~P(x)
                       a == FirstAt(s, N)
                   IN IF a = 0 THEN <<>> ELSE SubSeq(s, a, LastAt(s, N))
Trim(s) == TrimBy(s, IsSpace)

\* the parts of s between the characters satisfying P (one more part than separators)
SplitBy(s, P(_)) ==
  LET step(acc, c) == IF P(c) THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                      ELSE [acc EXCEPT !.cur = Append(@, c)]
      r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], s)
  IN Append(r.done, r.cur)
NonEmpty(parts) == SelectSeq(parts, LAMBDA p : p # <<>>)
Fields(s) == NonEmpty(SplitBy(s, IsSpace))
Lines(s) == LET P(c) == c = LF IN SplitBy(s, P)
RECURSIVE JoinWith(_, _)
JoinWith(parts, sep) == IF parts = <<>> THEN <<>>
                        ELSE IF Len(parts) = 1 THEN parts[1]
                        ELSE parts[1] \o sep \o JoinWith(Tail(parts), sep)

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
\* decimal integers as canonical code points
IsInteger(s) == AllDigits(s) \/ (Len(s) > 1 /\ s[1] \in {43, 45} /\ AllDigits(Tail(s)))
NormInteger(s) == IF AllDigits(s) THEN StripZeros(s)
                  ELSE LET d == StripZeros(Tail(s)) IN IF s[1] = 45 /\ d # <<48>> THEN <<45>> \o d ELSE d
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsOf(n \div 10), 48 + (n % 10))
RECURSIVE ValueFrom(_, _)
ValueFrom(d, acc) == IF d = <<>> THEN acc ELSE ValueFrom(Tail(d), acc * 10 + d[1] - 48)
ValueOf(d) == ValueFrom(d, 0)
=============================================================================
