------------------------------- MODULE Elapsed -------------------------------
(* Texts for the time between two instants, and for instants relative to now. *)
EXTENDS HumanText
UnitNames == <<"year", "month", "week", "day", "hour", "minute">>
\* units as [days, seconds]
UnitDays == <<365, 30, 7, 1, 0, 0>>
UnitSecs == <<0, 0, 0, 0, 3600, 60>>
CountOf(i, x) == IF UnitDays[i] > 0 THEN x.d \div UnitDays[i] ELSE x.s \div UnitSecs[i] \* days are used up before hours
RestOf(i, x) == IF UnitDays[i] > 0 THEN [x EXCEPT !.d = @ % UnitDays[i]] ELSE [x EXCEPT !.s = @ % UnitSecs[i]]
(* Leap days: years are 365 days, so that the leap years from the first to    *)
(* the last year are taken off; the year of the first instant does not count  *)
(* if it is a leap year, otherwise that of the last one does.                 *)
LeapCorrection(yd, yn) ==
  LET k == LeapsBetween(yd, yn)
  IN IF k = 0 THEN 0 ELSE IF LeapYear(yd) THEN k - 1 ELSE IF LeapYear(yn) THEN k + 1 ELSE k
\* from d (in year yd) to n (in year yn), corrected
Between(d, yd, n, yn) == LET x == Minus(n, d) IN [x EXCEPT !.d = @ - LeapCorrection(yd, yn)]
RECURSIVE Parts(_, _, _, _, _)
\* the parts <<unit, count>>, i: the next unit, k: the number of parts left
Parts(x, i, k, adjacent, started) ==
  IF i > 6 \/ k = 0 THEN <<>>
  ELSE LET c == CountOf(i, x)
       IN IF c = 0 THEN IF started /\ adjacent THEN <<>> ELSE Parts(x, i + 1, k, adjacent, started)
          ELSE <<[u |-> i, c |-> c]>> \o Parts(RestOf(i, x), i + 1, k - 1, adjacent, TRUE)
Nothing == <<[u |-> 6, c |-> 0]>>
Decompose(x, depth, adjacent) ==
  IF x.d < 0 THEN Nothing
  ELSE LET p == Parts(x, 1, IF depth <= 0 THEN 2 ELSE depth, adjacent, FALSE) IN IF p = <<>> THEN Nothing ELSE p
UnitText(lang, ctx, p) ==
  LET u == UnitNames[p.u]
  IN Say(lang, ctx, "%[1]v " \o u, "%[1]v " \o u \o "s", ToString(p.c), Count(lang, p.c))
RECURSIVE JoinParts(_, _, _)
JoinParts(lang, ctx, ps) == IF Len(ps) = 1 THEN UnitText(lang, ctx, ps[1]) ELSE UnitText(lang, ctx, ps[1]) \o Tr(lang, "", ", ") \o JoinParts(lang, ctx, Tail(ps))
ElapsedText(lang, ctx, x, depth, adjacent) == JoinParts(lang, ctx, Decompose(x, depth, adjacent))
YearAt(t, off) == DateOf(Local(t, off).d).y
\* the text for the time from a to b, each [t |-> instant, off |-> offset of its place]
SinceText(lang, a, b, depth, adjacent) == ElapsedText(lang, "", Between(a.t, YearAt(a.t, a.off), b.t, YearAt(b.t, b.off)), depth, adjacent)
(* A deviation of the code: a time that is at most 15768 s (a 2000th of a     *)
(* year) short of a number of years is taken for that many years.             *)
RoundedUp(lang, ctx, x) ==
  LET k == x.d \div 365
      short == IF x.d % 365 = 364 THEN 86400 - x.s ELSE 86400
  IN IF x.d >= 0 /\ short <= 15768 THEN {UnitText(lang, ctx, [u |-> 1, c |-> k + 1])} ELSE {}
RoundedYears(lang, a, b) == RoundedUp(lang, "", Between(a.t, YearAt(a.t, a.off), b.t, YearAt(b.t, b.off)))

(* ---- relative times ---- *)
Less(a, b) == a.d < b.d \/ (a.d = b.d /\ (a.s < b.s \/ (a.s = b.s /\ a.n < b.n)))
\* whole seconds between a and a later b, rounded down or to the nearest
WholeSecs(a, b) ==
  LET x == Minus(b, a)
      down == IF b.n < a.n THEN [d |-> x.d - (IF x.s = 0 THEN 1 ELSE 0), s |-> (x.s + 86399) % 86400] ELSE x
      up == [d |-> down.d + (IF down.s = 86399 THEN 1 ELSE 0), s |-> (down.s + 1) % 86400]
      frac == IF b.n < a.n THEN b.n + 1000000000 - a.n ELSE b.n - a.n
  IN {down} \cup (IF frac >= 500000000 THEN {up} ELSE {})
Counted(lang, n, one, many) == Say(lang, "", one, "%[1]v" \o many, ToString(n), Count(lang, n))
\* v: the instant, vy: its year, n: now, nys: the year that it is now (in any of the time zones involved)
RelativeTexts(lang, v, vy, n, nys) ==
  LET past == Less(v, n)
      ctx == IF past THEN "naturaltime-past" ELSE "naturaltime-future"
      tail == IF past THEN " ago" ELSE " from now"
      day(ny) == LET xs == IF past THEN {Between(v, vy, n, ny)} ELSE {Between(n, ny, v, vy)}
                 \* what the elapsed time reads like is decided elsewhere
                 IN {Say(lang, "", "%[1]v" \o tail, "", "", TextArg(e)) : e \in UNION {{ElapsedText(lang, ctx, x, 2, TRUE)} \cup RoundedUp(lang, ctx, x) : x \in xs}}
      secs == IF past THEN WholeSecs(v, n) ELSE WholeSecs(n, v)
  IN UNION {IF x.d >= 1 THEN UNION {day(ny) : ny \in nys}
            ELSE IF x.s = 0 THEN {Tr(lang, "", "now")}
            ELSE IF x.s < 60 THEN {Counted(lang, x.s, "a second" \o tail, " seconds" \o tail)}
            ELSE IF x.s < 3600 THEN {Counted(lang, x.s \div 60, "a minute" \o tail, " minutes" \o tail)}
            ELSE {Counted(lang, x.s \div 3600, "an hour" \o tail, " hours" \o tail)} : x \in secs}
=============================================================================
