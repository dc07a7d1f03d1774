-------------------------- MODULE MC_CldrOperands ---------------------------
(* All short number texts, and the same numbers carried by other types.       *)
EXTENDS CldrOperands, Emit
CONSTANTS MaxLen
Alphabet == {48, 49, 57, 46, 99, 45, 101}                      \* 0 1 9 . c - e
VARIABLES s, root
Init == s = <<>> /\ root \in [a : Alphabet \cup {0}, b : Alphabet]
Next == \/ s = <<>> /\ root.a # 0 /\ s' = <<root.a, root.b>> /\ UNCHANGED root
        \/ s = <<>> /\ root.a = 0 /\ s' = <<root.b>> /\ UNCHANGED root
        \/ Len(s) >= 2 /\ Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c) /\ UNCHANGED root
X == Operands([t |-> "str", s |-> s])
\* the definition of the operands, as equations between them
Defined == \A o \in X.ops : /\ o.i = o.n.ip /\ o.w <= o.v /\ o.w = Len(o.n.fp) /\ Norm10(o.n.fp) = o.t
                            /\ o.f = Norm10(o.t \o Repeat10(o.v - o.w))
                            /\ (o.w = 0) = (o.t = Zero10)
SignFree == s # <<>> /\ s[1] \notin {45} => Operands([t |-> "str", s |-> <<45>> \o s]) = X \/ DecimalOf(s) = NotDecimal
\* 10^c times the mantissa
Compact == LET d == DecimalOf(s) IN d.ok /\ d.exk = 99 /\ d.ex \in 0..3 /\ X.ops # {} =>
  \A o \in X.ops, m \in Operands([t |-> "str", s |-> SubSeq(s, 1, IndexOf(s, 99) - 1)]).ops :
     Norm10(o.n.ip \o Pad(o.n.fp, 8)) = Norm10(m.n.ip \o Pad(m.n.fp, 8) \o Repeat10(o.c))
Whole == AllDigits(s) \/ (Len(s) > 1 /\ s[1] = 45 /\ AllDigits(Tail(s)))
Canonical == Whole /\ StripZeros(s) = s /\ s # <<45, 48>> /\ ~(Len(s) > 2 /\ s[1] = 45 /\ s[2] = 48)
Case(t) == Emit([op |-> "cl.ops", in |-> [t |-> t, s |-> s], exp |-> SetToSeq(Outcomes(X))])
CaseOut == s # <<>> => /\ Case("str") /\ Case("named string")
                       /\ Canonical => Case("int") /\ Case("int64") /\ Case("named") /\ Case("float64") /\ Case("float32") /\ Case("pint") /\ (s[1] # 45 => Case("uint64") /\ Case("uint"))
=============================================================================
