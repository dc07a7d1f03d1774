-------------------------- MODULE Trace_CldrRules ---------------------------
(* Recorded parses and evaluations of sets of rules.                          *)
EXTENDS CldrRules, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      ps == [i \in 1..Len(e.in.rules) |-> ParseRule(e.in.rules[i].s)]
      bad == \E i \in 1..Len(ps) : ps[i].z = "bad"
      loose == \E i \in 1..Len(ps) : ps[i].z = "loose"
      rules == [i \in 1..Len(ps) |-> [c |-> e.in.rules[i].c, n |-> ps[i].n]]
      good == /\ ~bad /\ ~e.out.err /\ e.out.cats = CatsOf(rules)
              /\ \A i \in 1..Len(e.in.nums) : CatOK(rules, e.in.nums[i], e.out.vals[i])
  IN \/ e.out.err /\ (bad \/ loose)
     \/ good
     \/ Emit([id |-> e.id, exp |-> IF bad THEN <<[err |-> TRUE]>>
                ELSE <<[err |-> FALSE, cats |-> CatsOf(rules), vals |-> [i \in 1..Len(e.in.nums) |-> CatOutcomes(rules, e.in.nums[i])]]>>])
=============================================================================
