--------------------------- MODULE Trace_PoString ----------------------------
(* Recorded calls of the PO string codec against PoString.                   *)
EXTENDS PoString, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
  IN IF e.op = "po.decode"
     THEN e.out = DecodeLines(e.in.text) \/ Emit([id |-> e.id, exp |-> <<DecodeLines(e.in.text)>>])
     ELSE /\ Faithful(e.in.text, e.out.quoted) \/ Emit([id |-> e.id, exp |-> <<"well-formed quoted lines that decode to the text">>])
          /\ e.out.back = e.in.text \/ Emit([id |-> e.id, exp |-> <<[back |-> e.in.text]>>])
=============================================================================
