----------------------------- MODULE MC_Relative -----------------------------
(* Time passes an instant: what the instant is called relative to now, first  *)
(* in the future and then in the past, and what its day is called.            *)
EXTENDS Elapsed, DateFormat, Emit
CONSTANT Size
VARIABLES diff, what, lang, day
vars == <<diff, what, lang, day>>
\* seconds from now at which something changes, and around
Marks == {0, 1, 59, 60, 119, 120, 3540, 3599, 3600, 7199, 7200, 43200, 82800, 86399, 86400, 90000, 172799, 172800, 604800, 691200}
       \cup (IF Size = "small" THEN {} ELSE UNION {{k * 60, k * 3600, k * 86400} : k \in 1..100})
Stops == {k \in UNION {{m - 1, m, m + 1} : m \in Marks} : TRUE} \cup {-k : k \in UNION {{m - 1, m, m + 1} : m \in Marks}}
Init == /\ what \in {"time", "day"} /\ lang \in {"en", "de"}
        /\ IF what = "time" THEN diff = (CHOOSE k \in Stops : \A j \in Stops : j <= k) /\ day = 0 ELSE diff = 0 /\ day = 5
\* the next stop
Tick == what = "time" /\ \E k \in Stops : k < diff /\ (\A j \in Stops : j >= diff \/ j <= k) /\ diff' = k /\ UNCHANGED <<what, lang, day>>
\* within a day, and to the next day
Later == what = "day" /\ diff < 86399 /\ diff' = (IF diff = 0 THEN 1 ELSE IF diff = 1 THEN 43200 ELSE 86399) /\ UNCHANGED <<what, lang, day>>
Midnight == what = "day" /\ diff = 86399 /\ day > -5 /\ day' = day - 1 /\ diff' = 0 /\ UNCHANGED <<what, lang>>
Next == Tick \/ Later \/ Midnight
\* any now will do
Base == [d |-> DayOf(2023, 5, 5), s |-> 43200, n |-> 0]
Abs(k) == IF k < 0 THEN -k ELSE k
V(k) == [d |-> Base.d + (Base.s + k) \div 86400, s |-> (Base.s + k) % 86400, n |-> 0]
Texts(k) == RelativeTexts(lang, V(k), YearAt(V(k), 0), Base, {2023})
English(k) == CHOOSE t \in RelativeTexts("en", V(k), YearAt(V(k), 0), Base, {2023}) : TRUE
EndsIn(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
One == what = "time" => Cardinality(Texts(diff)) = 1
Direction == what = "time" => LET e == English(diff) IN
  /\ (diff = 0 <=> e = "now") /\ (diff > 0 <=> EndsIn(e, " from now")) /\ (diff < 0 <=> EndsIn(e, " ago"))
  \* past and future mirror each other
  /\ (diff # 0 => LET f == English(-diff) IN SubSeq(e, 1, Len(e) - (IF diff > 0 THEN 9 ELSE 4)) = SubSeq(f, 1, Len(f) - (IF diff > 0 THEN 4 ELSE 9)))
Units == what = "time" => LET e == English(Abs(diff)) k == Abs(diff) IN
  /\ (k \in 60..119 <=> e = "a minute from now") /\ (k \in 3600..7199 <=> e = "an hour from now")
  /\ (k \in 2..59 => e = ToString(k) \o " seconds from now") /\ (k \in 120..3599 => e = ToString(k \div 60) \o " minutes from now")
  /\ (k \in 7200..86399 => e = ToString(k \div 3600) \o " hours from now")
\* zones in which days have 23 to 25 hours, or in which a day is left out or repeated
Zones == <<[offs |-> <<0>>, at |-> <<>>], [offs |-> <<50400>>, at |-> <<>>], [offs |-> <<-43200>>, at |-> <<>>],
           [offs |-> <<0, 3600>>, at |-> <<-30000>>], [offs |-> <<3600, 0>>, at |-> <<-30000>>], [offs |-> <<3600, 0>>, at |-> <<30000>>], [offs |-> <<0, 3600>>, at |-> <<30000>>],
           [offs |-> <<-18000, -14400, -18000>>, at |-> <<-50000, 60000>>], [offs |-> <<0, -3600, 0>>, at |-> <<-70000, 100000>>],
           [offs |-> <<7200, 9000, 5400>>, at |-> <<-90000, -1000>>]>>
Kinds == <<"time", "ptr", "duration", "time">>
Case(z, k, n, style) ==
  Emit([op |-> "hum.relknown",
        in |-> [lang |-> lang, what |-> what, kind |-> k, zone |-> z, secs |-> IF what = "time" /\ n < 0 THEN diff ELSE diff, nanos |-> n, days |-> day, on |-> what = "day", style |-> style],
        exp |-> IF what = "time" THEN SetToSeq({[text |-> t] : t \in Texts(diff)})
                ELSE <<[text |-> IF day \in {-1, 0, 1} THEN Tr(lang, "", <<"yesterday", "today", "tomorrow">>[day + 2]) ELSE "date"]>>])
\* a value passed as an instant is a little further away than now, so that it does not cross to the next second while it is asked for
CaseOut ==
  IF what = "time" THEN \A k \in 1..4 : Case(Zones[((Abs(diff) + k) % Len(Zones)) + 1], Kinds[k], IF Kinds[k] = "duration" \/ diff < 0 THEN 0 ELSE 200000000, Abs(diff) + k)
  ELSE \A z \in 1..Len(Zones) : Case(Zones[z], Kinds[(z % 2) + 1], 0, z)
=============================================================================
