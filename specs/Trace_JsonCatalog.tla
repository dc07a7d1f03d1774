------------------------- MODULE Trace_JsonCatalog --------------------------
(* Recorded decodings of JSON documents and lookups.                          *)
EXTENDS JsonCatalog, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
RulesAt(r) == Rules[IF r = 0 THEN English ELSE r]
Good(e, r) ==
  LET rules == RulesAt(r)
      x == Read(CatsOf(rules), e.in.doc, e.in.fault)
  IN IF e.out.err THEN x.err
     ELSE \E ms \in x.cats :
            /\ ToSet(e.out.msgs_set) = ShownMsgs(ms)
            /\ \A i \in 1..Len(e.in.qs) : e.out.ans[i] \in Ask(e.in.lang, e.in.domain, rules, ms, e.in.qs[i])
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      rows == RowsFor(e.out.chain)
  IN (\E r \in rows : Good(e, r))
     \/ Emit([id |-> e.id, exp |-> SetToSeq(UNION {LET x == Read(CatsOf(RulesAt(r)), e.in.doc, e.in.fault)
                                                   IN {[err |-> FALSE, msgs_set |-> SetToSeq(ShownMsgs(ms)),
                                                        ans |-> [i \in 1..Len(e.in.qs) |-> Ask(e.in.lang, e.in.domain, RulesAt(r), ms, e.in.qs[i])]] : ms \in x.cats}
                                                      \cup IF x.err THEN {[err |-> TRUE]} ELSE {} : r \in rows})])
=============================================================================
