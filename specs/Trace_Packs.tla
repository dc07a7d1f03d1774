----------------------------- MODULE Trace_Packs -----------------------------
(* The languages as they are shipped, each judged for what it promises.       *)
EXTENDS Shipped
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
Faults(e) ==
  LET p == PackOf(e.in.lang)
  IN CASE e.in.what = "language" -> Wrong(p, e.out.lang)
       [] e.in.what = "values" -> Unkept(p)
       [] e.in.what = "forms" -> IF BadRule(p) THEN {"rule"} ELSE Missing(p)
       [] e.in.what = "formats" -> Confused(p)
Judge == l <= Len(Trace) =>
  LET e == Trace[l] f == Faults(e)
  IN f = {} \/ Emit([id |-> e.id, known |-> IF e.in.lang = "pack:hi" /\ f = {"TIME_FORMAT", "DATETIME_FORMAT", "SHORT_DATETIME_FORMAT"} THEN "hindi-half-days" ELSE "", exp |-> <<[no |-> SetToSeq(f)]>>])
=============================================================================
