----------------------------- MODULE MC_PoFile ------------------------------
(* Every PO text of up to MaxLines lines from an alphabet of lines.          *)
EXTENDS PoFile, Emit
CONSTANTS MaxLines, Alphabet, Skip

Wide == << "", "# c", "#. e", "#: f:1", "#, fuzzy", "#~ msgid \"o\"", "#| msgid \"z\"", "msgctxt \"x\"", "msgid \"a\"",
           "msgid \"b\"", "msgid \"\"", "msgid_plural \"p\"", "msgstr \"t\"", "msgstr \"K: V\"", "msgstr[0] \"u\"",
           "msgstr[2] \"v\"", "\"Language: w\"", "garbage" >>
Deep == << "", "# c", "msgid \"a\"", "msgid \"b\"", "msgid_plural \"p\"", "msgstr \"t\"", "msgstr[1] \"u\"", "msgstr[0] \"v\"", "\"w\"" >>
Odd == << "", "msgid \"a\"", "msgid\t\"a\"", "msgid  \"a\"", "msgid\"a\"", "  msgid \"a\"  ", "msgid \"a\" x", "msgid \"a", "msgid a",
          "msgid_plural\"p\"", "msgid_plural \"q\\\"\"", "msgstr\"t\"", "msgstr \"t\\\\\\n\"", "msgstr  \"t\\\"", "msgstr \"t\" \"u\"", "msgstr[0]\"u\"",
          "msgstr [0] \"u\"", "msgstr[01]  \"u\"", "msgstr[] \"u\"", "msgstr[-1] \"u\"", "msgstr[12] \"u\"", "msgstr[0 \"u\"", "\"w\" ", "\"w", "w\"", "\"", "msgctxt \"\"",
          "domain \"x\"", "#", "#.", "#,", "#:", "#|", "#~", "#,a,b , c", "#: a:1  b c:d:2 e:f g:", "# l  ", "#. m", "#|x", "#| msgctxt \"y\"", "#| \"yy\"", "#| msgid", "#=", "msgid", "msgstr" >>
Prev == << "", "# c", "#, fuzzy", "#| msgctxt \"x\"", "#| msgid \"y\"", "#| msgid", "#| msgid_plural \"z\"", "#| \"w\"", "msgid \"a\"", "msgstr \"t\"" >>
LineSet == CASE Alphabet = "prev" -> Prev [] Alphabet = "wide" -> Wide [] Alphabet = "deep" -> Deep [] Alphabet = "odd" -> Odd

\* Codes knows no tabulator and TLC no string with one that can be indexed: it is written as "\t" = code 9
Text1(str) == [i \in 1..Len(str) |-> LET c == SubSeq(str, i, i) IN IF c = "\t" THEN 9 ELSE CodeOf[c]]
LineCodes == [i \in 1..Len(LineSet) |-> Text1(LineSet[i])]
Toks == [i \in 1..Len(LineSet) |-> Tok(LineCodes[i])]

VARIABLES lines, st
Init == lines = <<>> /\ st = InitParse
Next == /\ Len(lines) < MaxLines
        /\ st.z # "bad"
        /\ \E i \in 1..Len(LineSet) : lines' = Append(lines, i) /\ st' = Step(st, Toks[i], Skip)

RECURSIVE TextOf(_)
TextOf(ls) == IF ls = <<>> THEN <<>> ELSE LineCodes[ls[1]] \o <<LF>> \o TextOf(Tail(ls))

(* ------------------------------ invariants ------------------------------ *)
Count(P(_)) == Len(SelectSeq(lines, P))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Entries == Append(st.done, st.e)
\* every translation line read is held by exactly one entry
TranslationsKept == st.z # "bad" =>
  Sum([i \in 1..Len(Entries) |-> Len(Entries[i].str)]) = Count(LAMBDA i : Toks[i].k \in {"msgstr", "msgstr[]"})
\* as is every id
IdsKept == st.z # "bad" =>
  Len(SelectSeq(Entries, LAMBDA e : e.hasId)) = Count(LAMBDA i : Toks[i].k = "msgid")
\* only complete entries are closed
Closed == \A i \in 1..Len(st.done) : st.done[i].kind # "none" /\ st.done[i].hasId
\* reading line by line is reading the text
SameAsText == ParseText(TextOf(lines), Skip) = Finish(st)
\* the entries of a text stay when lines are added
Prefix == [][st'.z # "bad" => IsPrefix(st.done, st'.done)]_<<lines, st>>
CaseOut == lines = <<>> \/
  Emit([op |-> "po.parse", in |-> [text |-> TextOf(lines), skip |-> Skip], exp |-> Outcomes(Finish(st))])
=============================================================================
