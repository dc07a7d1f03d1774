---------------------------- MODULE Trace_PoFile -----------------------------
(* Recorded calls of the PO parser against PoFile.                           *)
EXTENDS PoFile, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch

NormMessage(m) == [m EXCEPT !.str_set = ToSet(@)]
NormOut(o) == IF o.err THEN Error
              ELSE [err |-> FALSE, header |-> [o.header EXCEPT !.fields_set = ToSet(@)],
                    messages_set |-> {NormMessage(o.messages_set[i]) : i \in 1..Len(o.messages_set)}]
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      allowed == Outcomes(ParseText(e.in.text, e.in.skip))
  IN NormOut(e.out) \in allowed \/ Emit([id |-> e.id, exp |-> allowed])
=============================================================================
