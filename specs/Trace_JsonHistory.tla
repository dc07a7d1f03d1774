------------------------- MODULE Trace_JsonHistory --------------------------
(* Recorded histories of JSON catalogs.                                       *)
EXTENDS JsonHistory, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
RulesAt(r) == Rules[IF r = 0 THEN English ELSE r]
Good(e, r) ==
  LET rules == RulesAt(r)
      b == Build(CatsOf(rules), e.in.ins)
      run == Run(Start(CatsOf(rules), e.in.ins), e.in.steps, e.in.lang, e.in.domain, rules)
  IN IF b.err THEN e.out.err
     ELSE /\ ~e.out.err
          /\ \A i \in 1..Len(e.in.steps) : e.out.res[i] \in run.res[i]
          /\ e.out.fin = Final(run.st)
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      rows == RowsFor(e.out.chain)
  IN (\E r \in rows : Good(e, r))
     \/ Emit([id |-> e.id, exp |-> SetToSeq({IF Build(CatsOf(RulesAt(r)), e.in.ins).err THEN [err |-> TRUE]
                                             ELSE LET run == Run(Start(CatsOf(RulesAt(r)), e.in.ins), e.in.steps, e.in.lang, e.in.domain, RulesAt(r))
                                                  IN [err |-> FALSE, res |-> run.res, fin |-> Final(run.st)] : r \in rows})])
=============================================================================
