-------------------------- MODULE Trace_PluralForms -------------------------
(* Recorded parses and evaluations of Plural-Forms headers.                   *)
EXTENDS PluralForms, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      p == ParseHeader(e.in.text)
      meant == [err |-> FALSE, np |-> p.np, vals |-> [i \in 1..Len(e.in.nums) |-> FormsOf(p.n, e.in.nums[i])]]
      good == ~e.out.err /\ e.out.np = p.np /\ \A i \in 1..Len(e.in.nums) : FormOK(p.n, e.in.nums[i], e.out.vals[i])
      exp == (IF p.z \in {"bad", "loose"} THEN {[err |-> TRUE]} ELSE {}) \cup (IF p.z \in {"ok", "loose"} THEN {meant} ELSE {})
  IN p.z = "any" \/ (e.out.err /\ p.z \in {"bad", "loose"}) \/ (p.z \in {"ok", "loose"} /\ good)
     \/ Emit([id |-> e.id, exp |-> SetToSeq(exp)])
=============================================================================
