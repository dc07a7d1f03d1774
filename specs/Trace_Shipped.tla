---------------------------- MODULE Trace_Shipped ----------------------------
(* Recorded calls of humanizers in the languages that are shipped.            *)
EXTENDS Trace_Humanize, Shipped
\* the languages that the humanizers know by their codes, with their English names
Languages == ndJsonDeserialize("languages.ndjson")
NameOf == [c \in {Languages[i].code : i \in DOMAIN Languages} |-> Languages[CHOOSE i \in DOMAIN Languages : Languages[i].code = c].name]
\* how far a time is from whole years is decided elsewhere
AllowedShipped(e) ==
  LET in == e.in
  IN CASE e.op = "hum.name" -> LET name == IF in.code = "" THEN in.name ELSE IF in.code \in DOMAIN NameOf THEN NameOf[in.code] ELSE "" IN {IF name = "" THEN "" ELSE PackSay(in.lang, "", name, "", "", PackNoArg)}
       [] e.op = "hum.elapsed" -> Allowed(e) \cup RoundedYears(in.lang, IF in.form \in {"since", "sinceFrom"} THEN in.d ELSE in.now, IF in.form \in {"since", "sinceFrom"} THEN in.now ELSE in.d)
       [] OTHER -> Allowed(e)
JudgeShipped == l <= Len(Trace) =>
  LET e == Trace[l] IN e.out.text \in AllowedShipped(e) \/ Emit([id |-> e.id, known |-> "", exp |-> SetToSeq({[text |-> t] : t \in AllowedShipped(e)})])
=============================================================================
