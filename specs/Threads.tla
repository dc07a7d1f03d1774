------------------------------ MODULE Threads -------------------------------
(***************************************************************************)
(* Several goroutines use one bundle at the same time. The bundle (cfg, b)  *)
(* is the shared memory; `look` holds the registers of the goroutine that   *)
(* is running, `saved` those of the suspended ones. A goroutine may be      *)
(* suspended between any two phases of a request (after the negotiation,    *)
(* before or after any catalog is consulted, before and after the text is   *)
(* formatted), which are exactly the points at which the library runs code  *)
(* of its user: the language matcher, catalogs, callbacks, printers.        *)
(*                                                                         *)
(* cfg.ranges : for each goroutine the steps lo..hi it makes                *)
(* sched      : the goroutines in the order in which they ran               *)
(***************************************************************************)
EXTENDS Lookup

VARIABLES saved, cur, running, sched

tvars == <<cfg, b, look, saved, cur, running, sched>>

G == Len(cfg.ranges)
Registers(t) == IF t = cur THEN look ELSE saved[t]
Finished(t) == Registers(t).i > cfg.ranges[t].hi /\ Registers(t).ph = "idle"

ThreadsInit ==
  /\ look = [InitLook EXCEPT !.i = cfg.ranges[1].lo]
  /\ saved = [t \in 1..Len(cfg.ranges) |-> [InitLook EXCEPT !.i = cfg.ranges[t].lo]]
  /\ cur = 1 /\ running = FALSE /\ sched = <<>>

Create == BundleNext /\ UNCHANGED <<look, saved, cur, running, sched>>

Resume(t) ==
  /\ b.ph = "done" /\ ~running /\ ~Finished(t)
  /\ saved' = [saved EXCEPT ![cur] = look]
  /\ look' = Registers(t)
  /\ cur' = t /\ running' = TRUE /\ sched' = Append(sched, t)
  /\ UNCHANGED <<cfg, b>>

Perform ==
  /\ running /\ LookupNext
  /\ running' = (look'.ph = "answer")          \* formatting and returning are one phase
  /\ UNCHANGED <<saved, cur, sched>>

ThreadsNext == Create \/ (\E t \in 1..G : Resume(t)) \/ Perform

AllFinished == b.ph = "fail" \/ (b.ph = "done" /\ ~running /\ \A t \in 1..G : Finished(t))
ThreadsOutcome == [new |-> Outcome(b), outs |-> FlattenSeq([t \in 1..G |-> Registers(t).outs])]

----------------------------------------------------------------------------
(* Properties.                                                              *)

\* What a request answers when nobody else is there.
Alone(s) ==
  LET n == Negotiate(Requested(s.req))
      q == Query(s)
      r1 == Consult(n.loc, q)
      r2 == Consult(FallbackLocale, q)
      r3 == Consult(SourceLocale, q)
  IN IF s.k \notin {"get", "loc"} THEN ""
     ELSE IF r1.e.k = "" THEN Format(n.loc.l, r1.t, q.v)
     ELSE IF n.loc # FallbackLocale /\ r2.e.k = "" THEN Format(FallbackLocale.l, r2.t, q.v)
     ELSE Format(SourceLocale.l, r3.t, q.v)
AsAlone == \A t \in 1..G : \A j \in 1..Len(Registers(t).outs) :
             LET s == cfg.steps[cfg.ranges[t].lo + j - 1] IN
             s.k \in {"get", "loc"} => Registers(t).outs[j].s = Alone(s)

\* Once created, the bundle never changes.
Immutable == [][b.ph = "done" => b' = b /\ cfg' = cfg]_tvars
=============================================================================
