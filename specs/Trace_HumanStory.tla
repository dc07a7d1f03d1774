-------------------------- MODULE Trace_HumanStory --------------------------
(* Recorded stories of humanizers: each step's result must be that of the     *)
(* specification, given the matcher's answers.                                *)
EXTENDS HumanStory, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ev, i, st, good
Init == ev \in 1..Len(Trace) /\ i = 0 /\ st = Start(Trace[ev].in.pool) /\ good = TRUE
Step == LET d == Do(st, Trace[ev].in.steps[i + 1], Trace[ev].out.ans[i + 1])
        IN st' = d.st /\ good' = (Trace[ev].out.res[i + 1] = d.res)
Next == i < Len(Trace[ev].in.steps) /\ good /\ Step /\ i' = i + 1 /\ UNCHANGED ev
\* the matcher was asked about the languages of the collection
SameLanguages == i > 0 /\ Trace[ev].in.steps[i].k = "new" => (Trace[ev].out.res[i] = "ok" => Trace[ev].out.langs[Len(st.colls)] = Langs(st.colls[Len(st.colls)], st.fbs[Len(st.colls)]))
Over == i = Len(Trace[ev].in.steps) \/ ~good
RECURSIVE Results(_, _)
Results(s, k) == IF k > Len(Trace[ev].in.steps) THEN <<>> ELSE LET d == Do(s, Trace[ev].in.steps[k], Trace[ev].out.ans[k]) IN <<d.res>> \o Results(d.st, k + 1)
Judge == /\ Assert(SameLanguages, <<"languages", Trace[ev].id>>)
         /\ Over => IF good THEN Emit([id |-> Trace[ev].id, ok |-> TRUE])
                    ELSE Emit([id |-> Trace[ev].id, ok |-> FALSE, exp |-> <<[res |-> Results(Start(Trace[ev].in.pool), 1)]>>])
=============================================================================
