-------------------------- MODULE Trace_PluralTable --------------------------
(* Recorded evaluations of the rules chosen for arbitrary languages.          *)
EXTENDS PluralTable, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
Node(r) == Rules[IF r = 0 THEN English ELSE r].n
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      rows == RowsFor(e.out.chain)
      good(r) == e.out.found = (r # 0) /\ \A i \in 1..Len(e.in.nums) : FormOK(Node(r), e.in.nums[i], e.out.vals[i])
  IN (\E r \in rows : good(r))
     \/ Emit([id |-> e.id, exp |-> SetToSeq({[found |-> r # 0, vals |-> [i \in 1..Len(e.in.nums) |-> FormsOf(Node(r), e.in.nums[i])]] : r \in rows})])
=============================================================================
