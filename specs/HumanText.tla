------------------------------ MODULE HumanText ------------------------------
(* The languages of the humanizers under test: "en", whose texts are the      *)
(* keys, and "de", in whose catalog every text is put in braces together with *)
(* its context.                                                               *)
EXTENDS Calendar
\* the value s in the place of the directive of a text
RECURSIVE Put(_, _)
Put(t, s) ==
  IF t = "" THEN ""
  ELSE IF SubSeq(t, 1, 1) # "%" THEN SubSeq(t, 1, 1) \o Put(SubSeq(t, 2, Len(t)), s)
  ELSE IF SubSeq(t, 2, 2) = "%" THEN "%" \o Put(SubSeq(t, 3, Len(t)), s)
  ELSE s \o Put(SubSeq(t, IF SubSeq(t, 2, 2) = "[" THEN 6 ELSE 3, Len(t)), s)
(* What a language says for a text: c: its context, many: its plural ("" if   *)
(* it has none), cnt: the digits of what is counted, arg: the value.          *)
(* Trace_Shipped.tla replaces this by the catalogs of real languages.         *)
Say(lang, c, one, many, cnt, arg) ==
  LET t == Put(IF many = "" \/ cnt = "1" THEN one ELSE many, arg)
  IN IF lang = "en" THEN t ELSE "{" \o c \o "|" \o t \o "}"
NoArg == ""
\* a text as a value
TextArg(t) == t
Tr(lang, c, s) == Say(lang, c, s, "", "", NoArg)
\* the text of a number, in groups of three digits; sep: between the groups
RECURSIVE Grouped(_, _)
Pad3(n) == (IF n < 100 THEN "0" ELSE "") \o (IF n < 10 THEN "0" ELSE "") \o ToString(n)
Grouped(n, sep) == IF n < 1000 THEN ToString(n) ELSE Grouped(n \div 1000, sep) \o sep \o Pad3(n % 1000)
GroupSep(lang) == IF lang = "en" THEN "," ELSE "."
\* a number as a value
Count(lang, n) == Grouped(n, GroupSep(lang))
Pad2(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
=============================================================================
