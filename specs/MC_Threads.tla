----------------------------- MODULE MC_Threads -----------------------------
(* Every schedule of goroutines making requests to one bundle; one case per  *)
(* bundle, programs and schedule.                                            *)
EXTENDS Threads, Emit

CONSTANTS Shapes,     \* how many steps each goroutine makes
          Full        \* localizers both shared and of the goroutines' own

Shape(s) == CASE s = "1+1" -> <<1, 1>> [] s = "2+1" -> <<2, 1>> [] s = "1+1+1" -> <<1, 1, 1>> [] s = "2+2" -> <<2, 2>> [] s = "3+1" -> <<3, 1>>
Programs == { Shape(s) : s \in Shapes }

Tag(t) == [k |-> "tag", t |-> t]
RTag(t) == [k |-> "tag", t |-> t, q |-> <<>>]
NumI(i) == [k |-> "int", i |-> i]
Acc(d, n, c, f) == [d |-> d, n |-> n, c |-> c, f |-> f]
BaseStep == [k |-> "get", req |-> <<RTag("de")>>, hasld |-> FALSE, ld |-> "", key |-> FALSE, a |-> Acc(FALSE, FALSE, FALSE, FALSE),
             d |-> "", c |-> "", s |-> "m", p |-> "ms", n |-> NumI(1), v |-> <<>>, hasd |-> FALSE]
Msg(m, l) == [c |-> "", m |-> m, f |-> <<[i |-> 0, t |-> l \o "1"], [i |-> 1, t |-> l \o "n"]>>]
Cat(l, ms) == [l |-> l, d |-> "", st |-> "ok", kind |-> "po", rule |-> "ne1", msgs |-> ms]
World(cb) == [opts |-> <<[k |-> "loader", s |-> "", ls |-> <<>>], [k |-> "src", ls |-> <<Tag("en")>>], [k |-> "fb", ls |-> <<Tag("fr")>>],
                         [k |-> "lang", req |-> FALSE, ls |-> <<Tag("de")>>], [k |-> "printer", s |-> "tag"]>> \o (IF cb THEN <<[k |-> "cb"]>> ELSE <<>>),
              cats |-> <<Cat("de", <<Msg("m", "de")>>), Cat("fr", <<Msg("m", "fr"), Msg("x", "fr")>>)>>, matcher |-> "exact"]

\* Requests answered by the selected language, the fallback language and the source text; other domains; accessors.
Menu == <<
  [BaseStep EXCEPT !.a = Acc(FALSE, TRUE, FALSE, TRUE), !.n = NumI(2), !.v = <<NumI(7)>>],
  [BaseStep EXCEPT !.k = "loc", !.s = "x", !.n = NumI(3), !.v = <<NumI(8)>>],
  [BaseStep EXCEPT !.k = "loc", !.s = "zz", !.p = "zzs", !.n = NumI(1)],
  [BaseStep EXCEPT !.req = <<RTag("fr")>>],
  [BaseStep EXCEPT !.a = Acc(TRUE, FALSE, FALSE, TRUE), !.d = "no", !.v = <<NumI(9)>>],
  [BaseStep EXCEPT !.k = "err", !.req = <<RTag("sv")>>],
  [BaseStep EXCEPT !.k = "info"] >>
Pick(n) == [1..n -> 1..Len(Menu)]
Total(p) == FoldLeft(LAMBDA x, y : x + y, 0, p)
Lo(p, t) == 1 + FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(p, 1, t - 1))

\* Goroutines are interchangeable, so their programs are taken in one order only.
Ordered(p, f) == \A t \in 1..(Len(p) - 1) : p[t] = p[t+1] => f[Lo(p, t)] <= f[Lo(p, t + 1)]
Configurations(p) == UNION {
  { [opts |-> World(cb).opts, cats |-> World(cb).cats, matcher |-> "exact", shared |-> sh,
     ranges |-> [t \in 1..Len(p) |-> [lo |-> Lo(p, t), hi |-> Lo(p, t) + p[t] - 1]],
     steps |-> [i \in 1..Total(p) |-> Menu[f[i]]]]
    : cb \in (IF Total(p) = 2 THEN BOOLEAN ELSE {TRUE}), sh \in (IF Total(p) = 2 \/ Full THEN BOOLEAN ELSE {f[1] <= 3}) }
  : f \in { g \in Pick(Total(p)) : Ordered(p, g) } }

Init == cfg \in UNION { Configurations(p) : p \in Programs } /\ b = InitBuilder /\ ThreadsInit
Next == ThreadsNext

EmitFinal == AllFinished => Emit([id |-> 0, op |-> "threads", in |-> [cfg |-> cfg, sched |-> sched], exp |-> <<ThreadsOutcome>>])
=============================================================================
