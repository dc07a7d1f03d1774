------------------------------ MODULE Numerals ------------------------------
(* Texts of numbers.  A number is [neg, i, f]: its sign and the texts of its  *)
(* integer digits (without leading zeros, "0" if there are none) and of its   *)
(* fraction digits.                                                           *)
EXTENDS HumanText
Ch(s, k) == SubSeq(s, k, k)
DigitOf == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CHOOSE d \in 0..9 : ToString(d) = c]
RECURSIVE Zeros(_), NoLead(_), NoTrail(_)
Zeros(k) == IF k <= 0 THEN "" ELSE IF k = 1 THEN "0" ELSE Zeros(k \div 2) \o Zeros(k - k \div 2)
\* without leading and without trailing zeros
NoLead(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoLead(SubSeq(s, 2, Len(s))) ELSE s
NoTrail(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "0" THEN NoTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE GroupDigits(_, _)
GroupDigits(s, sep) == IF Len(s) <= 3 THEN s ELSE GroupDigits(SubSeq(s, 1, Len(s) - 3), sep) \o sep \o SubSeq(s, Len(s) - 2, Len(s))
RECURSIVE Increment(_)
Increment(s) == IF s = "" THEN "1" ELSE LET h == SubSeq(s, 1, Len(s) - 1) d == DigitOf[Ch(s, Len(s))]
                IN IF d = 9 THEN Increment(h) \o "0" ELSE h \o ToString(d + 1)
\* digits times m (m < 200 million), as text
RECURSIVE TimesFrom(_, _, _, _)
TimesFrom(s, m, k, carry) ==
  IF k = 0 THEN IF carry = 0 THEN "" ELSE ToString(carry)
  ELSE LET x == DigitOf[Ch(s, k)] * m + carry IN TimesFrom(s, m, k - 1, x \div 10) \o ToString(x % 10)
TimesSmall(s, m) == TimesFrom(s, m, Len(s), 0)
\* n divided by ten to the e
Shift(n, e) == LET s == Zeros(e + 1 - Len(n.i)) \o n.i IN [n EXCEPT !.i = NoLead(SubSeq(s, 1, Len(s) - e)), !.f = SubSeq(s, Len(s) - e + 1, Len(s)) \o n.f]
\* a number divided by two to the 10k: times 5^10k and shifted by 10k digits
RECURSIVE Kilo(_, _)
Kilo(n, k) == IF k = 0 THEN n ELSE LET all == TimesSmall(n.i \o n.f, 9765625) IN Kilo(Shift([n EXCEPT !.i = all, !.f = ""], 10 + Len(n.f)), k - 1)
(* Rounded to k fraction digits; a number in the middle may go both ways, and *)
(* so may one that a floating-point number cannot tell from the middle.       *)
RoundTo(n, k) ==
  IF Len(n.f) <= k THEN {n}
  ELSE LET down == [n EXCEPT !.f = SubSeq(n.f, 1, k)]
           all == Increment(n.i \o SubSeq(n.f, 1, k))
           up == [n EXCEPT !.i = SubSeq(all, 1, Len(all) - k), !.f = SubSeq(all, Len(all) - k + 1, Len(all))]
           w == IF Len(n.i) + k < 14 THEN 15 - k - Len(n.i) ELSE 1     \* what is left of 15 digits
           rest == SubSeq(n.f \o Zeros(15), k + 1, k + w)
       IN IF rest \in {"5" \o Zeros(w - 1), "4" \o SubSeq("99999999999999", 1, w - 1)} THEN {up, down}
          ELSE IF DigitOf[Ch(rest, 1)] >= 5 THEN {up} ELSE {down}
Point(lang) == IF lang = "en" THEN "." ELSE ","
IsZero(n) == NoTrail(n.i \o n.f) = ""
\* a zero may keep its sign
Signs(n) == IF ~n.neg THEN {""} ELSE IF IsZero(n) THEN {"", "-"} ELSE {"-"}
Printed(lang, n) == LET f == NoTrail(n.f) IN {s \o GroupDigits(n.i, GroupSep(lang)) \o (IF f = "" THEN "" ELSE Point(lang) \o f) : s \in Signs(n)}
PrintedFixed(lang, n) == {s \o GroupDigits(n.i, GroupSep(lang)) \o Point(lang) \o SubSeq(n.f \o "0", 1, 1) : s \in Signs(n)}
Cut(n) == [n EXCEPT !.f = ""]
\* an integer as a value
Whole(lang, n) == GroupDigits(n.i, GroupSep(lang))
AtLeast(n, e) == Len(n.i) > e     \* n >= 10^e

IntcommaTexts(lang, n) == UNION {Printed(lang, r) : r \in RoundTo(n, 6)}
ApWords == <<"one", "two", "three", "four", "five", "six", "seven", "eight", "nine">>
ApnumberTexts(lang, n) ==
  IF ~n.neg /\ Len(n.i) = 1 /\ n.i # "0" THEN {Tr(lang, "", ApWords[DigitOf[n.i]])} ELSE Printed(lang, Cut(n))
\* negative numbers have no ordinal: they are given as they are, grouped or not
OrdinalTexts(lang, n) ==
  LET m == Cut(n)
      s == m.i
      one == DigitOf[Ch(s, Len(s))]
      teen == Len(s) > 1 /\ Ch(s, Len(s) - 1) = "1" /\ one \in 1..3
  IN IF n.neg /\ ~IsZero(n) THEN Printed(lang, m) \cup {"-" \o s} \cup (IF s = "0" THEN {"0"} ELSE {})
     ELSE {Say(lang, IF teen THEN "ordinal 11, 12, 13" ELSE "ordinal " \o ToString(one),
               "%v" \o IF teen THEN "th" ELSE CASE one = 1 -> "st" [] one = 2 -> "nd" [] one = 3 -> "rd" [] OTHER -> "th", "", "", Whole(lang, m))}
\* rounded up; a floating-point number cannot be told from a near one
Ceilings(n, e) == IF NoTrail(n.f) # "" THEN {Increment(n.i)} ELSE IF e <= 15 THEN {n.i} ELSE {n.i, Increment(n.i)}
Words == <<"million", "billion", "trillion", "quadrillion", "quintillion", "sextillion", "septillion", "octillion", "nonillion", "decillion">>
IntwordTexts(lang, n) ==
  IF ~AtLeast(n, 6) THEN IntcommaTexts(lang, n)
  ELSE LET k == IF AtLeast(n, 36) THEN 10 ELSE (Len(n.i) - 1) \div 3 - 1
           word(e, w) == {Say(lang, "", "%[1]s " \o w, "%[1]s " \o w, c, TextArg(t)) : c \in Ceilings(Shift(n, e), e), t \in UNION {PrintedFixed(lang, r) : r \in RoundTo(Shift(n, e), 1)}}
       IN IF AtLeast(n, 100) THEN word(100, "googol") \cup (IF AtLeast(n, 103) THEN IntcommaTexts(lang, n) ELSE {})
          ELSE word(3 * k + 3, Words[k])
SizeUnits == <<"KB", "MB", "GB", "TB", "PB">>
Below1024(s) == Len(s) < 4 \/ (Len(s) = 4 /\ Ch(s, 1) = "1" /\ Ch(s, 2) = "0" /\ (DigitOf[Ch(s, 3)] < 2 \/ (Ch(s, 3) = "2" /\ DigitOf[Ch(s, 4)] < 4)))
SizeTexts(lang, n) ==
  LET m == [Cut(n) EXCEPT !.neg = FALSE]
      sign == IF n.neg /\ m.i # "0" THEN "-" ELSE ""
      RECURSIVE unit(_, _)
      unit(x, k) == IF k = 5 \/ Below1024(x.i) THEN <<x, k>> ELSE unit(Kilo(x, 1), k + 1)
      u == unit(m, 0)
  IN IF u[2] = 0 THEN {sign \o Say(lang, "", "%[1]d byte", "%[1]d bytes", m.i, Whole(lang, m))}
     ELSE {sign \o Say(lang, "", "%s " \o SizeUnits[u[2]], "", "", TextArg(t)) : t \in UNION {Printed(lang, r) : r \in RoundTo(u[1], 1)}}
NumberTexts(what, lang, n) ==
  CASE what = "comma" -> IntcommaTexts(lang, n) [] what = "ap" -> ApnumberTexts(lang, n) [] what = "ordinal" -> OrdinalTexts(lang, n)
    [] what = "word" -> IntwordTexts(lang, n) [] what = "size" -> SizeTexts(lang, n)
\* what is not a number: its type and how it prints
NoNumber(type, value) == IF type = "" THEN "<nil>" ELSE "%!(" \o type \o "=" \o value \o ")"
=============================================================================
