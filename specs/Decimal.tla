------------------------------ MODULE Decimal -------------------------------
(* Decimal numbers as written: sign, digits, fraction, exponent (e or c).     *)
EXTENDS Nat10

\* the parts of a decimal number; ok is FALSE for any other text.  ex is the exponent's value (small), exk its letter.
NotDecimal == [ok |-> FALSE]
DecimalOf(s) ==
  LET sign == Len(s) > 0 /\ s[1] \in {43, 45}
      body == IF sign THEN Tail(s) ELSE s
      e == SelectInSeq(body, LAMBDA c : c \in {69, 99, 101})                  \* E c e
      mant == IF e = 0 THEN body ELSE SubSeq(body, 1, e - 1)
      exps == IF e = 0 THEN <<48>> ELSE From(body, e + 1)
      dot == IndexOf(mant, 46)
      ip == IF dot = 0 THEN mant ELSE SubSeq(mant, 1, dot - 1)
      fp == IF dot = 0 THEN <<>> ELSE From(mant, dot + 1)
      esign == Len(exps) > 0 /\ exps[1] \in {43, 45}
      edigits == IF esign THEN Tail(exps) ELSE exps
  IN IF ip \o fp = <<>> \/ ~(\A i \in 1..Len(ip) : IsDigit(ip[i])) \/ ~(\A i \in 1..Len(fp) : IsDigit(fp[i]))
        \/ ~AllDigits(edigits) \/ Len(edigits) > 4 THEN NotDecimal
     ELSE [ok |-> TRUE, neg |-> sign /\ s[1] = 45, plus |-> sign /\ s[1] = 43, ip |-> [i \in 1..Len(ip) |-> ip[i] - 48], fp |-> [i \in 1..Len(fp) |-> fp[i] - 48],
           dot |-> dot # 0, exk |-> IF e = 0 THEN 0 ELSE body[e],
           ex |-> LET v == ValueOf(edigits) IN IF esign /\ exps[1] = 45 THEN -v ELSE v]

Repeat10(n) == [i \in 1..n |-> 0]
\* the point moved k places to the right
Shift(d, k) ==
  IF k >= 0
  THEN LET f == d.fp \o Repeat10(k - Len(d.fp))
       IN [d EXCEPT !.ip = d.ip \o SubSeq(f, 1, k), !.fp = SubSeq(f, k + 1, Len(f))]
  ELSE LET i == Repeat10(-k - Len(d.ip)) \o d.ip
       IN [d EXCEPT !.ip = SubSeq(i, 1, Len(i) + k), !.fp = SubSeq(i, Len(i) + k + 1, Len(i)) \o d.fp]
Integer10(d) == Norm10(d.ip)
\* rounded to the nearest integer, ties to the even one
HalfEven(d) ==
  LET i == Integer10(d)
      rest == SelectInSeq(Tail(d.fp), LAMBDA x : x # 0) # 0
  IN IF d.fp = <<>> THEN i
     ELSE IF d.fp[1] > 5 \/ (d.fp[1] = 5 /\ (rest \/ ~Even10(i))) THEN Inc10(i) ELSE i
TrimZeros(f) == SubSeq(f, 1, SelectLastInSeq(f, LAMBDA x : x # 0))
=============================================================================
