------------------------------- MODULE Printf -------------------------------
(* Directives in texts, and numbers as the language writes them.             *)
(* Arguments: [k |-> "int", i] or [k |-> "str", s].                          *)
(* Directives: %d %s %v %x %%, with an argument index [k] in between.        *)
EXTENDS Integers, Sequences, TLC

Separator(l) == CASE l \in {"de", "es", "nl", "da", "it", "pt"} -> "." [] l \in {"fr", "ru", "sv", "pl"} -> "~" [] l \in {"de-CH"} -> "'" [] OTHER -> ","
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE Group(_, _)
Group(l, n) == IF n < 0 THEN "-" \o Group(l, -n)
               ELSE IF n < 1000 THEN ToString(n) ELSE Group(l, n \div 1000) \o Separator(l) \o Pad3(n % 1000)
Shown(l, x) == IF x.k = "int" THEN Group(l, x.i) ELSE x.s
TypeName(x) == IF x.k = "int" THEN "int" ELSE "string"
RECURSIVE Hex(_)
Hex(n) == IF n < 0 THEN "-" \o Hex(-n)
          ELSE LET d == SubSeq("0123456789abcdef", (n % 16) + 1, (n % 16) + 1) IN IF n < 16 THEN d ELSE Hex(n \div 16) \o d

\* The bytes of a text of the characters that arguments are made of here.
RECURSIVE HexText(_)
HexText(t) == IF t = "" THEN "" ELSE LET c == SubSeq(t, 1, 1) IN
  (CASE c = "v" -> "76" [] c = "%" -> "25" [] c = "d" -> "64" [] c = "5" -> "35" [] c = "0" -> "30" [] OTHER -> "?") \o HexText(SubSeq(t, 2, Len(t)))

At(t, p) == IF p \in 1..Len(t) THEN SubSeq(t, p, p) ELSE ""
DigitOf(c) == CASE c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] OTHER -> 0

\* One argument under one verb.
Verb(l, c, x) ==
  CASE c = "v" \/ (c = "d" /\ x.k = "int") \/ (c = "s" /\ x.k = "str") -> Shown(l, x)
    [] c = "x" -> IF x.k = "int" THEN Hex(x.i) ELSE HexText(x.s)
    [] OTHER -> "%!" \o c \o "(" \o TypeName(x) \o "=" \o Shown(l, x) \o ")"

\* The text of the arguments that no directive asked for.
RECURSIVE Rest(_, _)
Rest(l, v) == IF v = <<>> THEN "" ELSE TypeName(v[1]) \o "=" \o Shown(l, v[1]) \o (IF Len(v) = 1 THEN "" ELSE ", ") \o Rest(l, Tail(v))

\* From position p, the next argument being a; re: an index was given somewhere.
RECURSIVE From_(_, _, _, _, _, _)
From_(l, t, v, p, a, re) ==
  IF p > Len(t) THEN (IF re \/ a > Len(v) \/ a = 1 THEN "" ELSE "%!(EXTRA " \o Rest(l, SubSeq(v, a, Len(v))) \o ")")
  ELSE IF At(t, p) # "%" THEN At(t, p) \o From_(l, t, v, p + 1, a, re)
  ELSE IF At(t, p + 1) = "" THEN "%!(NOVERB)" \o From_(l, t, v, p + 1, a, re)
  ELSE IF At(t, p + 1) = "%" THEN "%" \o From_(l, t, v, p + 2, a, re)
  ELSE LET ix == IF At(t, p + 1) = "[" THEN DigitOf(At(t, p + 2)) ELSE 0
           at == IF ix > 0 THEN ix ELSE a
           q == IF ix > 0 THEN p + 4 ELSE p + 1
           c == At(t, q)
       IN (IF at > Len(v) THEN "%!" \o c \o (IF ix > 0 THEN "(BADINDEX)" ELSE "(MISSING)") ELSE Verb(l, c, v[at]))
          \o From_(l, t, v, q + 1, IF at > Len(v) THEN a ELSE at + 1, re \/ ix > 0)
Printf(l, t, v) == From_(l, t, v, 1, 1, FALSE)
=============================================================================
