------------------------- MODULE Trace_CldrOperands -------------------------
(* Recorded operands of Go values.                                            *)
EXTENDS CldrOperands, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      x == Operands(e.in)
  IN OutcomeOK(x, e.out) \/ Emit([id |-> e.id, exp |-> SetToSeq(Outcomes(x))])
=============================================================================
