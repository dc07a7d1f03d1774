--------------------------- MODULE Trace_FileLoad ----------------------------
(* Recorded searches, resolutions and loads in file systems with faults.      *)
EXTENDS FileLoad, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
Allowed(e) == CASE e.op = "fs.load"    -> LoadOutcomes(e.in.cfg, e.in.tag, e.in.domain, e.in.files, ToSet(e.out.hits))
                [] e.op = "fs.resolve" -> ResolveOutcomes(e.in.cfg, e.in.tag, e.in.domain, e.in.ext, e.in.files)
                [] e.op = "fs.names"   -> {Names(e.in.tag)}
Judge == l <= Len(Trace) =>
  LET e == Trace[l] IN e.out.r \in Allowed(e) \/ Emit([id |-> e.id, exp |-> SetToSeq(Allowed(e))])
=============================================================================
