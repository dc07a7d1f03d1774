-------------------------- MODULE Trace_CldrTable ---------------------------
(* Recorded evaluations of the rules chosen for arbitrary languages.          *)
EXTENDS CldrTable, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
RulesAt(r) == Rules[IF r = 0 THEN English ELSE r]
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      rows == RowsFor(e.out.chain)
      good(r) == /\ e.out.found = (r # 0) /\ e.out.cats = CatsOf(RulesAt(r))
                 /\ \A i \in 1..Len(e.in.nums) : CatOK(RulesAt(r), e.in.nums[i], e.out.vals[i])
  IN (\E r \in rows : good(r))
     \/ Emit([id |-> e.id, exp |-> SetToSeq({[found |-> r # 0, cats |-> CatsOf(RulesAt(r)),
                                              vals |-> [i \in 1..Len(e.in.nums) |-> CatOutcomes(RulesAt(r), e.in.nums[i])]] : r \in rows})])
=============================================================================
