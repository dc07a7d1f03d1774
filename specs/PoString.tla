------------------------------ MODULE PoString ------------------------------
(* Quoted strings of PO files (catalog/po/po_string.go): how a quoted text   *)
(* is decoded, and which quoted forms are faithful to a text.                *)
EXTENDS Text

Simple == {97, 98, 102, 110, 114, 116, 118, QUOTE, BACKSLASH, 47, 39}
SimpleValue(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
                    [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c

\* One character at a time.  mode: "text"; "esc" after a backslash; "hex" after
\* \x; "hex1" after \x and a hex digit (held).
DecodeStep(st, c) ==
  LET plain(out) == IF c = BACKSLASH THEN [out |-> out, mode |-> "esc", held |-> 0]
                    ELSE [out |-> Append(out, c), mode |-> "text", held |-> 0]
  IN CASE st.mode = "text" -> plain(st.out)
       [] st.mode = "esc" ->
            IF c \in Simple THEN [out |-> Append(st.out, SimpleValue(c)), mode |-> "text", held |-> 0]
            ELSE IF c = 120 THEN [out |-> st.out, mode |-> "hex", held |-> 0]
            ELSE [out |-> st.out \o <<BACKSLASH, c>>, mode |-> "text", held |-> 0]
       [] st.mode = "hex" ->
            IF IsHex(c) THEN [out |-> st.out, mode |-> "hex1", held |-> c]
            ELSE plain(st.out \o <<BACKSLASH, 120>>)
       [] st.mode = "hex1" ->
            IF IsHex(c) /\ 16 * HexVal(st.held) + HexVal(c) < 128
            THEN [out |-> Append(st.out, 16 * HexVal(st.held) + HexVal(c)), mode |-> "text", held |-> 0]
            ELSE plain(st.out \o <<BACKSLASH, 120, st.held>>)
DecodeEnd(st) == CASE st.mode = "text" -> st.out
                   [] st.mode = "esc"  -> Append(st.out, BACKSLASH)
                   [] st.mode = "hex"  -> st.out \o <<BACKSLASH, 120>>
                   [] st.mode = "hex1" -> st.out \o <<BACKSLASH, 120, st.held>>
\* the text between the quotes of one line
DecodeBody(body) == DecodeEnd(FoldLeft(DecodeStep, [out |-> <<>>, mode |-> "text", held |-> 0], body))

\* a line decodes to what is between its first and its last quote
DecodeLine(line) ==
  LET a == IndexOf(line, QUOTE)
      b == LastIndexOf(line, QUOTE)
  IN IF a = 0 \/ a = b THEN <<>> ELSE DecodeBody(SubSeq(line, a + 1, b - 1))
DecodeLines(text) ==
  LET step(acc, l) == acc \o DecodeLine(l) IN FoldLeft(step, <<>>, Lines(text))

\* well-formed quoted body: no control characters, quotes only after an odd run of backslashes,
\* complete escapes
WellFormedBody(body) ==
  LET step(st, c) == CASE st = "bad" -> "bad"
                       [] st = "text" -> IF c = BACKSLASH THEN "esc" ELSE IF c = QUOTE \/ c < 32 THEN "bad" ELSE "text"
                       [] st = "esc" -> IF c < 32 THEN "bad" ELSE "text"
  IN FoldLeft(step, "text", body) = "text"
WellFormedLine(line) == Len(line) >= 2 /\ line[1] = QUOTE /\ line[Len(line)] = QUOTE
                        /\ WellFormedBody(SubSeq(line, 2, Len(line) - 1))

\* A quoted form of a text is faithful if it consists of well-formed quoted lines which decode to it.
Faithful(text, quoted) ==
  /\ \A i \in 1..Len(Lines(quoted)) : WellFormedLine(Lines(quoted)[i])
  /\ DecodeLines(quoted) = text
=============================================================================
