----------------------------- MODULE MC_Elapsed -----------------------------
(* A clock runs on from a first instant, by one unit or second at a time; the *)
(* time since then is asked at every stop.                                    *)
EXTENDS Elapsed, Emit
CONSTANT Size
VARIABLES a, b, steps
vars == <<a, b, steps>>
Starts == {<<2023, 1, 1>>, <<2024, 2, 29>>, <<2019, 12, 31>>, <<1899, 3, 1>>, <<2000, 12, 31>>}
       \cup IF Size = "small" THEN {} ELSE {<<2004, 1, 1>>, <<2022, 2, 28>>, <<1, 6, 1>>, <<1600, 2, 29>>, <<9000, 7, 4>>, <<1970, 1, 1>>}
Secs == {0, 86399}
Budget == IF Size = "small" THEN 5 ELSE 7
At(d, s) == [t |-> [d |-> d, s |-> s, n |-> 0], off |-> 0]
Init == /\ \E x \in Starts, s \in Secs : a = At(DayOf(x[1], x[2], x[3]), s) /\ b = a
        /\ steps = [i \in 1..7 |-> 0]
Limit == <<3, 2, 3, 3, 2, 2, 2>>
Total == LET RECURSIVE sum(_) sum(i) == IF i = 0 THEN 0 ELSE steps[i] + sum(i - 1) IN sum(7)
Used == \* the units in falling order, so that a sum is reached once
  LET RECURSIVE low(_) low(i) == IF i = 0 THEN 1 ELSE IF steps[i] > 0 THEN i ELSE low(i - 1) IN low(7)
Forth(x, i) == CASE i <= 4 -> [x EXCEPT !.t.d = @ + UnitDays[i]]
                 [] i = 7 -> [x EXCEPT !.t = [d |-> @.d + (@.s + 1) \div 86400, s |-> (@.s + 1) % 86400, n |-> 0]]
                 [] OTHER -> [x EXCEPT !.t = [d |-> @.d + (@.s + UnitSecs[i]) \div 86400, s |-> (@.s + UnitSecs[i]) % 86400, n |-> 0]]
Pass(i) == /\ i >= Used /\ Total < Budget /\ steps[i] < Limit[i]
           /\ b' = Forth(b, i) /\ steps' = [steps EXCEPT ![i] = @ + 1] /\ UNCHANGED a
Next == \E i \in 1..7 : Pass(i)

X == Between(a.t, YearAt(a.t, 0), b.t, YearAt(b.t, 0))
Zero == [d |-> 0, s |-> 0]
Plus(x, u, c) == [d |-> x.d + UnitDays[u] * c, s |-> x.s + UnitSecs[u] * c]
Le(x, y) == x.d < y.d \/ (x.d = y.d /\ x.s <= y.s)
Norm(x) == [d |-> x.d + x.s \div 86400, s |-> x.s % 86400]
Sum(ps) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN Zero ELSE Plus(f(i - 1), ps[i].u, ps[i].c) IN Norm(f(Len(ps)))
Depths == {1, 2, 3, 6}
Decomposition ==
  \A depth \in Depths, adj \in BOOLEAN :
    LET ps == Decompose(X, depth, adj)
        s == Sum(ps)
    IN /\ Len(ps) \in 1..depth
       /\ \A i \in 1..(Len(ps)-1) : ps[i].u < ps[i+1].u /\ (adj => ps[i+1].u = ps[i].u + 1)
       /\ ps # Nothing => \A i \in 1..Len(ps) : ps[i].c > 0
       /\ Le(s, IF X.d < 0 THEN Zero ELSE X)
       \* what is left is less than the last unit
       /\ ps # Nothing => ~Le(Norm(Plus(s, ps[Len(ps)].u, 1)), X)
       /\ ps = Nothing <=> X.d <= 0 /\ (X.d < 0 \/ X.s < 60)
       \* the largest unit comes first: one more of a larger one would be too much
       /\ ps # Nothing => \A u \in 1..(ps[1].u - 1) : ~Le(Norm(Plus(Zero, u, 1)), X)
       /\ depth = 6 /\ ~adj /\ X.d >= 0 => LET r == Norm(Plus(s, 6, 1)) IN ~Le(r, X)
\* without leap days in between nothing is taken off, and not more than the leap days there are
Corrected == LET raw == Minus(b.t, a.t) IN /\ X.d <= raw.d
                /\ raw.d - X.d <= Cardinality({y \in YearAt(a.t, 0)..YearAt(b.t, 0) : LeapYear(y)})
                /\ (YearAt(a.t, 0) = YearAt(b.t, 0) => X.d = raw.d)
\* whole calendar years between the same dates are years
Anniversary == \A y \in {1, 4, 5, 100} : LET x == DateOf(a.t.d) IN
                 x.m > 2 \/ x.d < 29 => LET e == [t |-> [a.t EXCEPT !.d = DayOf(x.y + y, x.m, x.d)], off |-> 0]
                                            z == Between(a.t, x.y, e.t, x.y + y)
                                        IN Total = 0 => z.d \in (365*y - 1)..(365*y + 1) /\ z.s = 0
Forms == <<"since", "sinceFrom", "until", "untilFrom", "reverse">>
Kinds == <<"time", "ptr", "int", "str", "float", "floatstr">>
Case(k, lang, depth, adj, swap) ==
  LET form == Forms[(k % 5) + 1]
      since == form \in {"since", "sinceFrom"}
      p == IF swap THEN b ELSE a
      q == IF swap THEN a ELSE b
  IN Emit([op |-> "hum.elapsed",
           in |-> [lang |-> lang, d |-> IF since THEN p ELSE q, now |-> IF since THEN q ELSE p, depth |-> depth, adj |-> adj,
                   form |-> form, kind |-> Kinds[(k % 6) + 1], style |-> k],
           exp |-> <<[text |-> SinceText(lang, p, q, depth, adj)]>>])
Hash == (a.t.d % 1000) + 7 * steps[1] + 11 * steps[2] + 13 * steps[3] + 17 * steps[4] + 19 * steps[5] + 23 * steps[6] + 29 * steps[7] + (IF a.t.s > 0 THEN 3 ELSE 0)
CaseOut == LET langs == <<"en", "de">>
               ds == <<2, 1, 3, 6, 0, 4>>
           IN /\ Case(Hash, langs[(Hash % 2) + 1], ds[(Hash % 6) + 1], Hash % 4 < 2, FALSE)
              /\ Case(Hash + 1, langs[((Hash \div 2) % 2) + 1], ds[((Hash \div 3) % 6) + 1], Hash % 3 # 0, FALSE)
              /\ (Hash % 5 = 0 => Case(Hash + 2, "en", 2, TRUE, TRUE))
=============================================================================
