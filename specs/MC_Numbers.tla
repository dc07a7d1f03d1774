------------------------------ MODULE MC_Numbers ------------------------------
(* A counter that runs through numbers digit by digit: a digit is appended,   *)
(* or one is added or taken off; what it reads like is asked on the way.      *)
EXTENDS Numerals, Emit
CONSTANT Size
VARIABLES s, k, what
vars == <<s, k, what>>
MaxLen == IF Size = "small" THEN 15 ELSE 15
Digits == IF Size = "small" THEN {"0", "5", "9"} ELSE {"0", "1", "4", "5", "9"}
Heads == {"1", "2", "9", "10"} \cup {ToString(i) : i \in IF Size = "small" THEN {3, 11, 12, 13, 21, 99, 1023, 1024, 1025, 1048575, 1048576, 1073741824} ELSE 1..130}
Init == s \in Heads \cup {"0", "1099511627775", "1099511627776", "1125899906842623", "1125899906842624", "999999", "999949", "1000000", "999949999", "999950000"} /\ k = 0 /\ what \in {"comma", "ap", "ordinal", "word", "size"}
\* a run of one digit
Next == /\ s # "0" /\ \E d \in Digits, n \in {1, 2, 3, 6} :
             /\ k < 2 /\ Len(s) + n <= MaxLen
             /\ s' = s \o SubSeq(d \o d \o d \o d \o d \o d, 1, n)
        /\ k' = k + 1 /\ UNCHANGED what
N(neg, i, f) == [neg |-> neg, i |-> i, f |-> f]
Plain(t) == LET RECURSIVE p(_) p(x) == IF x = "" THEN "" ELSE (IF Ch(x, 1) = "," THEN "" ELSE Ch(x, 1)) \o p(SubSeq(x, 2, Len(x))) IN p(t)
Val(x) == LET RECURSIVE v(_) v(y) == IF y = "" THEN 0 ELSE v(SubSeq(y, 1, Len(y) - 1)) * 10 + DigitOf[Ch(y, Len(y))] IN v(x)
Small == Len(s) <= 9
Grouping == LET g == GroupDigits(s, ",") IN Plain(g) = s /\ (Small => g = Grouped(Val(s), ",")) /\ (Len(s) > 3 => Ch(g, Len(g) - 3) = ",")
Ordinals == Small => LET v == Val(s) IN \A t \in OrdinalTexts("en", N(FALSE, s, "")) :
              LET suffix == SubSeq(t, Len(t) - 1, Len(t))
              IN suffix = (IF (v % 100) \in 11..13 THEN "th" ELSE (CASE v % 10 = 1 -> "st" [] v % 10 = 2 -> "nd" [] v % 10 = 3 -> "rd" [] OTHER -> "th"))
Counting == Small => /\ Increment(s) = ToString(Val(s) + 1)
                     /\ (Val(s) < 200000 => TimesSmall(s, 9765) = (IF s = "0" THEN "0" ELSE ToString(Val(s) * 9765)))
\* kilobytes: within half a tenth of the exact quotient
Sizes == Small /\ Val(s) >= 1024 /\ Val(s) < 1048576 =>
           \A r \in RoundTo(Kilo(N(FALSE, s, ""), 1), 1) :
              LET tenths == Val(r.i \o SubSeq(r.f \o "0", 1, 1))
                  d == tenths * 1024 - Val(s) * 10
              IN d \in -512..512
\* the unit does not exceed the number, and the next one does
UnitFits == what = "size" => \A u \in 1..5 :
              LET x == Kilo(N(FALSE, s, ""), u) IN (\E t \in SizeTexts("en", N(FALSE, s, "")) : SubSeq(t, Len(t) - 1, Len(t)) = SizeUnits[u]) =>
                 x.i # "0" /\ (u < 5 => Below1024(x.i))
\* values that carry the number; the fraction belongs to those that can have one
Carriers == <<"int", "str", "float64", "int64", "uint64", "named int", "json", "ptr int", "uint", "exp str", "complex128", "str">>
Fracs == <<"", "5", "25", "000001", "9999995", "05", "95", "4999">>
Case(j, neg, f) ==
  LET t == IF f # "" THEN <<"str", "float64", "json", "complex128", "ptr float64">>[(j % 5) + 1] ELSE Carriers[(j % Len(Carriers)) + 1]
      sign == neg /\ t \notin {"uint64", "uint"}
      lang == <<"en", "de">>[(j % 2) + 1]
      fr == IF Len(s) <= 8 \/ (Len(s) + Len(f) <= 15 /\ what # "comma") THEN f ELSE ""
      n == N(sign, s, fr)
  IN Emit([op |-> "hum.numberknown", in |-> [lang |-> lang, what |-> what, n |-> n, t |-> t, style |-> j],
           exp |-> SetToSeq({[text |-> x] : x \in NumberTexts(what, lang, n)})])
CaseOut == LET h == Len(s) * 7 + k * 5 + DigitOf[Ch(s, Len(s))] * 3
           IN /\ Case(h, FALSE, "") /\ Case(h + 1, h % 3 = 0, "") /\ Case(h + 2, TRUE, Fracs[(h % 8) + 1]) /\ Case(h + 3, FALSE, Fracs[((h \div 3) % 8) + 1])
=============================================================================
