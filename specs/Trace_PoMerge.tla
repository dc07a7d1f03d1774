---------------------------- MODULE Trace_PoMerge ----------------------------
(* Recorded histories of additions against PoMerge.                          *)
EXTENDS PoMerge, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
OpOf(o) == IF o.k = "add" THEN [o EXCEPT !.m.str = ToSet(@)] ELSE o
Got(out) == [out EXCEPT !.messages_set = {[@[i] EXCEPT !.str_set = ToSet(@)] : i \in 1..Len(@)}]
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      exp == Out(Final([i \in 1..Len(e.in.ops) |-> OpOf(e.in.ops[i])]))
  IN Got(e.out) = exp \/ Emit([id |-> e.id, exp |-> <<exp>>])
=============================================================================
