--------------------------- MODULE Trace_Session ----------------------------
(* Trace validation: every recorded session (creation of a bundle and the    *)
(* requests made to it) must be a behaviour of Bundle.tla / Lookup.tla.      *)
EXTENDS Lookup, Emit

VARIABLE ev

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* Without a bundle no request was made, so nothing was recorded about them.
Steps == IF Trace[ev].out.new.ok THEN Trace[ev].in.steps ELSE <<>>

Init == /\ ev \in 1..Len(Trace)
        /\ cfg = IF Trace[ev].in.matcher \in {"std", "default"}
                 THEN [opts |-> Trace[ev].in.opts, cats |-> Trace[ev].in.cats, steps |-> Steps, matcher |-> "std",
                       ans |-> IF Trace[ev].out.new.ok THEN Trace[ev].out.ans ELSE <<>>]
                 ELSE [opts |-> Trace[ev].in.opts, cats |-> Trace[ev].in.cats, steps |-> Steps, matcher |-> Trace[ev].in.matcher]
        /\ b = InitBuilder /\ LookupInit
Next == SessionNext /\ UNCHANGED ev

\* Recorded sets arrive as arrays.
AsSets(o) == [o EXCEPT !.new.sup_set = Range(@), !.new.doms_set = Range(@), !.new.pinit_set = Range(@),
                       !.outs = [i \in 1..Len(o.outs) |-> [o.outs[i] EXCEPT !.doms_set = Range(@)]]]
Recorded == AsSets([new |-> Trace[ev].out.new, outs |-> Trace[ev].out.outs])
NoDuplicates == /\ IsInjective(Trace[ev].out.new.sup_set) /\ IsInjective(Trace[ev].out.new.doms_set)
                /\ \A i \in 1..Len(Trace[ev].out.outs) : IsInjective(Trace[ev].out.outs[i].doms_set)

\* Only the domain orders that explain the recorded reports are followed.
LogExplains == IsPrefix(b.log, Trace[ev].out.new.log)

Judge == SessionOver => IF Recorded = SessionOutcome /\ NoDuplicates THEN Emit([id |-> Trace[ev].id, ok |-> TRUE])
                        ELSE Emit([id |-> Trace[ev].id, ok |-> FALSE, exp |-> <<SessionOutcome>>])
=============================================================================
