------------------------ MODULE Trace_GettextCatalog ------------------------
(* Recorded decodings of PO and MO files and lookups in their catalogs.       *)
EXTENDS GettextCatalog, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
Good(e, row) ==
  LET r == RuleOf(e.in.file, row)
  IN \/ r.z = "any" \/ Void(e.in.file)
     \/ e.out.err /\ r.z \in {"bad", "loose"}
     \/ /\ ~e.out.err /\ r.z \in {"ok", "loose"}
        /\ \A i \in 1..Len(e.in.qs) : AnswerOK(Ask(e.in.lang, e.in.domain, e.in.file, r.r, e.in.qs[i]), e.out.ans[i])
Judge == l <= Len(Trace) =>
  LET e == Trace[l]
      rows == RowsFor(e.out.chain)
  IN (\E row \in rows : Good(e, row))
     \/ Emit([id |-> e.id, exp |-> SetToSeq(UNION {
          LET r == RuleOf(e.in.file, row)
          IN (IF r.z # "ok" THEN {[err |-> TRUE]} ELSE {})
             \cup (IF r.z \in {"ok", "loose"} THEN {[err |-> FALSE, ans |-> [i \in 1..Len(e.in.qs) |-> Ask(e.in.lang, e.in.domain, e.in.file, r.r, e.in.qs[i])]]} ELSE {}) : row \in rows})])
=============================================================================
