--------------------------- MODULE Trace_Humanize ---------------------------
(* Recorded calls of the humanizers for dates and times.                      *)
EXTENDS Elapsed, DateFormat, Numerals, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch
SetOf(f) == {f[i] : i \in DOMAIN f}
Allowed(e) ==
  LET in == e.in
      out == e.out
  IN CASE e.op = "hum.elapsed" ->
            {IF in.form \in {"since", "sinceFrom"} THEN SinceText(in.lang, in.d, in.now, in.depth, in.adj) ELSE SinceText(in.lang, in.now, in.d, in.depth, in.adj)}
       [] e.op = "hum.format" -> TimeTexts(in.lang, in.fmt, in.t, [off |-> in.off, name |-> in.name, dst |-> in.dst], out.local)
       [] e.op = "hum.number" -> UNION {NumberTexts(in.what, in.lang, out.alts[i]) : i \in DOMAIN out.alts}
       [] e.op = "hum.nonumber" -> {NoNumber(out.type, out.value)}
       [] e.op = "hum.bytes" -> SizeTexts(in.lang, [neg |-> FALSE, i |-> ToString(in.len), f |-> ""])
       [] e.op = "hum.rel" /\ in.what = "day" ->
            UNION {DayTexts(in.lang, out.v.t, [off |-> out.v.off, name |-> out.name, dst |-> out.dst], Local(out.now[i].t, out.now[i].off).d, "") : i \in 1..2}
       [] e.op = "hum.rel" /\ in.what = "time" ->
            UNION {RelativeTexts(in.lang, out.v.t, YearAt(out.v.t, out.v.off), out.now[i].t, {YearAt(out.now[i].t, out.now[i].off), YearAt(out.now[i].t, out.local[i])}) : i \in 1..2}
       \* from or until now; what whole years are is decided elsewhere
       [] e.op = "hum.rel" /\ in.what \in {"since", "until"} ->
            LET v == [t |-> out.v.t, off |-> out.v.off]
                now == {[t |-> out.now[i].t, off |-> out.local[i]] : i \in 1..2}
            IN UNION {{SinceText(in.lang, p[1], p[2], 2, TRUE)} \cup RoundedYears(in.lang, p[1], p[2]) : p \in IF in.what = "since" THEN {v} \X now ELSE now \X {v}}
       [] e.op = "hum.rel" ->
            UNION {TimeTexts(in.lang, in.what, out.now[i].t, [off |-> out.local[i], name |-> out.name, dst |-> out.dst], "") : i \in 1..2}
Known(e) ==
  LET in == e.in
  IN CASE e.op = "hum.elapsed" /\ e.out.text \in RoundedYears(in.lang, IF in.form \in {"since", "sinceFrom"} THEN in.d ELSE in.now, IF in.form \in {"since", "sinceFrom"} THEN in.now ELSE in.d) -> "years-rounded"
       [] e.op = "hum.format" /\ in.fmt = "c" /\ e.out.text \in UnpaddedFraction(in.t, [off |-> in.off]) -> "c-unpadded"
       [] OTHER -> ""
Judge == l <= Len(Trace) =>
  LET e == Trace[l] IN e.out.text \in Allowed(e) \/ Emit([id |-> e.id, known |-> Known(e), exp |-> SetToSeq({[text |-> t] : t \in Allowed(e)})])
=============================================================================
