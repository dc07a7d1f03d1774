---------------------------- MODULE Trace_MoFile -----------------------------
(* Recorded readings of MO images against MoFile.                            *)
EXTENDS MoFile, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
Strs(seq) == {[seq[i] EXCEPT !.str_set = ToSet(@)] : i \in 1..Len(seq)}
Norm(o) == IF o.err THEN o ELSE [o EXCEPT !.fields_set = ToSet(@), !.messages_set = Strs(@), !.served_set = Strs(@)]
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      p == ParseImage(e.in.image)
  IN p.z = "any" \/ Norm(e.out) \in Outcomes(p) \/ Emit([id |-> e.id, exp |-> Outcomes(p)])
=============================================================================
