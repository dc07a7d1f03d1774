------------------------------- MODULE Nat10 --------------------------------
(* Natural numbers of any size: decimal digits, the most significant first,   *)
(* without leading zeros; zero is <<0>>.                                      *)
EXTENDS Text

Zero10 == <<0>>
One10 == <<1>>
Norm10(d) == LET k == SelectInSeq(d, LAMBDA x : x # 0) IN IF k = 0 THEN Zero10 ELSE SubSeq(d, k, Len(d))
Nat10OfCodes(c) == Norm10([i \in 1..Len(c) |-> c[i] - 48])
CodesOf10(d) == [i \in 1..Len(d) |-> d[i] + 48]
RECURSIVE Of10(_)
Of10(n) == IF n < 10 THEN <<n>> ELSE Append(Of10(n \div 10), n % 10)
Int10(d) == FoldLeft(LAMBDA acc, x : acc * 10 + x, 0, d)          \* of small numbers only

Lt10(a, b) == \/ Len(a) < Len(b)
              \/ Len(a) = Len(b) /\ LET k == SelectInSeq([i \in 1..Len(a) |-> a[i] - b[i]], LAMBDA x : x # 0)
                                    IN k # 0 /\ a[k] < b[k]
Le10(a, b) == a = b \/ Lt10(a, b)
\* a - b for a >= b
Sub10(a, b) ==
  LET n == Len(a)
      bb == [i \in 1..n |-> IF i > n - Len(b) THEN b[i - n + Len(b)] ELSE 0]
      step(acc, k) == LET i == n + 1 - k
                          x == a[i] - bb[i] - acc.borrow
                      IN [borrow |-> IF x < 0 THEN 1 ELSE 0, d |-> <<IF x < 0 THEN x + 10 ELSE x>> \o acc.d]
  IN Norm10(FoldLeft(step, [borrow |-> 0, d |-> <<>>], [k \in 1..n |-> k]).d)
Inc10(a) ==
  LET n == Len(a)
      k == SelectLastInSeq(a, LAMBDA x : x # 9)
  IN IF k = 0 THEN <<1>> \o [i \in 1..n |-> 0]
     ELSE [i \in 1..n |-> IF i < k THEN a[i] ELSE IF i = k THEN a[i] + 1 ELSE 0]
\* a modulo m, m > 0
RECURSIVE Reduce10(_, _)
Reduce10(r, m) == IF Lt10(r, m) THEN r ELSE Reduce10(Sub10(r, m), m)
Mod10(a, m) == IF Lt10(a, m) THEN a
               ELSE IF Len(m) <= 8 THEN LET v == Int10(m) IN Of10(FoldLeft(LAMBDA acc, x : (acc * 10 + x) % v, 0, a))
               ELSE FoldLeft(LAMBDA acc, x : Reduce10(Norm10(Append(acc, x)), m), Zero10, a)
Even10(a) == a[Len(a)] % 2 = 0
MaxInt64 == Nat10OfCodes(Codes("9223372036854775807"))
=============================================================================
