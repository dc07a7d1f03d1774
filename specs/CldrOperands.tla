---------------------------- MODULE CldrOperands ----------------------------
(* The operands of plural rules (TR35 part 3): what n, i, v, w, f, t and c    *)
(* are for the number that a Go value carries.                                *)
EXTENDS Decimal

NoNumber == {"nil", "nilptr", "nilpp", "bool", "struct", "slice"}
\* of a decimal number, whatever its sign; n is [ip, fp] without redundant zeros
OpsOf(d, c) ==
  [n |-> [ip |-> Integer10(d), fp |-> TrimZeros(d.fp)], i |-> Integer10(d), v |-> Len(d.fp), w |-> Len(TrimZeros(d.fp)),
   f |-> Norm10(d.fp), t |-> Norm10(TrimZeros(d.fp)), c |-> c]
\* redundant zeros after the point removed, as numbers are written by computers
Plain(d) == [d EXCEPT !.fp = TrimZeros(@)]
Fits(o) == Le10(o.i, MaxInt64) /\ Le10(o.f, MaxInt64)
\* The numbers that a value may be taken for; err: it may (or must, if there are none) be rejected.
Operands(v) ==
  LET d == DecimalOf(v.s)
      moved == Shift(d, d.ex)
      plain == {OpsOf(d, 0)}
      compact == {OpsOf(moved, d.ex)}
      scientific == {OpsOf(Plain(moved), 0), OpsOf(moved, 0), OpsOf(moved, d.ex)}
      all == IF v.t \in NoNumber \/ ~d.ok THEN {}
             ELSE IF d.exk = 0 THEN plain
             ELSE IF d.exk = 99 THEN IF d.ex < 0 THEN {} ELSE compact
             ELSE scientific
      strict == d.ok /\ ~d.plus /\ d.ip # <<>> /\ (d.exk = 0 \/ (d.exk = 99 /\ d.ex <= 18 /\ IsDigit(v.s[Len(v.s)]) /\ ~(\E i \in 1..Len(v.s) : v.s[i] = 43)))
      fit == {o \in all : Fits(o)}
  IN [ops |-> fit, err |-> fit = {} \/ ~strict]

(* ---- outcomes ---- *)
Dec(ip, fp) == CodesOf10(ip) \o IF fp = <<>> THEN <<>> ELSE <<46>> \o CodesOf10(fp)
Shown(o) == [err |-> FALSE, n |-> Dec(o.n.ip, o.n.fp), i |-> CodesOf10(o.i), v |-> DigitsOf(o.v), w |-> DigitsOf(o.w), f |-> CodesOf10(o.f),
             t |-> CodesOf10(o.t), c |-> DigitsOf(o.c)]
Outcomes(x) == {Shown(o) : o \in x.ops} \cup IF x.err THEN {[err |-> TRUE]} ELSE {}
\* n is a floating-point number: exact up to 15 digits and the nearest otherwise
Digits(n) == Len(Norm10(n.ip \o n.fp))
Pad(f, k) == f \o Repeat10(k - Len(f))
Near(a, b) ==
  LET k == IF Len(a.fp) > Len(b.fp) THEN Len(a.fp) ELSE Len(b.fp)
      x == Norm10(a.ip \o Pad(a.fp, k))
      y == Norm10(b.ip \o Pad(b.fp, k))
      diff == IF Lt10(x, y) THEN Sub10(y, x) ELSE Sub10(x, y)
  IN Le10(Norm10(diff \o Repeat10(15)), x)
OutcomeOK(x, got) ==
  IF got.err THEN x.err
  ELSE \E o \in x.ops :
         LET g == DecimalOf(got.n)
         IN /\ [got EXCEPT !.n = <<>>] = [Shown(o) EXCEPT !.n = <<>>]
            /\ \/ got.n = Dec(o.n.ip, o.n.fp)
               \/ Digits(o.n) > 15 /\ g.ok /\ ~g.neg /\ Near(o.n, [ip |-> g.ip, fp |-> g.fp])
=============================================================================
