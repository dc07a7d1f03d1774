---------------------------- MODULE Trace_Print -----------------------------
(* Formatting by several goroutines together gives what it gives alone (the  *)
(* property AsAlone of Threads.tla, for texts that Lookup.tla does not know). *)
EXTENDS Naturals, Sequences, Emit

Trace == ndJsonDeserialize(IOEnv.TRACE)
K == 32
VARIABLE i
Init == i \in 1..(IF Len(Trace) < K THEN Len(Trace) ELSE K)
Next == i + K <= Len(Trace) /\ i' = i + K

Alone(e) == [j \in 1..Len(e.out) |-> e.out[j].alone]
Together(e) == [j \in 1..Len(e.out) |-> e.out[j].together]
Judge == Together(Trace[i]) = Alone(Trace[i]) \/ Emit([id |-> Trace[i].id, ok |-> FALSE, exp |-> <<Alone(Trace[i])>>])
=============================================================================
