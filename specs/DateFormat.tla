----------------------------- MODULE DateFormat ------------------------------
(* Dates written by the letters of Django's date format.  A format is a       *)
(* sequence of one-character strings; t is an instant in UTC; z describes its *)
(* zone at that instant: [off |-> seconds from UTC, name, dst].  local is the *)
(* name of the machine's zone.                                                *)
EXTENDS HumanText
MonthNames == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
Month3 == <<"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec">>
Month3Upper == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
MonthAP == <<"Jan.", "Feb.", "March", "April", "May", "June", "July", "Aug.", "Sept.", "Oct.", "Nov.", "Dec.">>
DayNames == <<"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday">>
Day3 == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
Pad4(n) == (IF n < 1000 THEN "0" ELSE "") \o Pad3(n)
PadN(n, k) == LET s == ToString(n) IN SubSeq("000000000", 1, k - Len(s)) \o s
\* unix seconds of day d, second s, as text: d * 86400 + s is too large for the arithmetic at hand
UnixText(d, s) ==
  LET \* d * 864 * 100 + s in two halves of at most five digits at the end
      pos(dd, ss) == LET hi == (dd \div 100) * 864              \* times 10000
                         lo == (dd % 100) * 86400 + ss          \* < 8.7 million
                         top == hi + lo \div 10000
                     IN IF top = 0 THEN ToString(lo) ELSE ToString(top) \o PadN(lo % 10000, 4)
  IN IF d >= 0 THEN pos(d, s)
     ELSE "-" \o (IF s = 0 THEN pos(-d, 0) ELSE pos(-d - 1, 86400 - s))
OffsetText(off) ==
  LET m == (IF off < 0 THEN -off ELSE off) \div 60
  IN (IF off < 0 /\ m > 0 THEN "-" ELSE "+") \o Pad2(m \div 60) \o Pad2(m % 60)
Suffix(d) == IF d \in {11, 12, 13} THEN "th" ELSE CASE d % 10 = 1 -> "st" [] d % 10 = 2 -> "nd" [] d % 10 = 3 -> "rd" [] OTHER -> "th"
\* the short name of a month, as the first word of a sentence
Month3Capital(lang, m) == IF lang = "en" THEN Month3Upper[m] ELSE Tr(lang, "", Month3[m])
\* the texts that a letter may stand for
Letter(lang, l, t, z, local) ==
  LET here == Local(t, z.off)
      x == DateOf(here.d)
      wd == WeekDay(here.d)
      iso == IsoOf(here.d)
      hour == here.s \div 3600
      min == (here.s \div 60) % 60
      sec == here.s % 60
      h12 == IF hour % 12 = 0 THEN 12 ELSE hour % 12
      half == Tr(lang, "", IF hour > 11 THEN "p.m." ELSE "a.m.")
      short == ToString(h12) \o IF min = 0 THEN "" ELSE ":" \o Pad2(min)
      date == Pad4(x.y) \o "-" \o Pad2(x.m) \o "-" \o Pad2(x.d)
      time == Pad2(hour) \o ":" \o Pad2(min) \o ":" \o Pad2(sec)
      micro == PadN(t.n \div 1000, 6)
  IN CASE l = "a" -> {half}
       [] l = "A" -> {Tr(lang, "", IF hour > 11 THEN "PM" ELSE "AM")}
       [] l = "b" -> {Tr(lang, "", Month3[x.m])}
       \* the fraction in micro- or nanoseconds, and left out only if there is none
       [] l = "c" -> {date \o "T" \o time \o "." \o micro} \cup {date \o "T" \o time \o "." \o PadN(t.n, 9)} \cup (IF t.n < 1000 THEN {date \o "T" \o time} ELSE {}) \cup (IF t.n = 0 THEN {date \o "T" \o time \o ".0"} ELSE {})
       [] l = "d" -> {Pad2(x.d)}
       [] l = "D" -> {Tr(lang, "", Day3[wd + 1])}
       [] l = "e" -> {z.name}
       [] l = "E" -> {Tr(lang, "alt. month", MonthNames[x.m])}
       [] l = "f" -> {short}
       [] l = "F" -> {Tr(lang, "", MonthNames[x.m])}
       [] l = "g" -> {ToString(h12)}
       [] l = "G" -> {ToString(hour)}
       [] l = "h" -> {Pad2(h12)}
       [] l = "H" -> {Pad2(hour)}
       [] l = "i" -> {Pad2(min)}
       [] l = "I" -> {IF z.dst THEN "1" ELSE "0"}
       [] l = "j" -> {ToString(x.d)}
       [] l = "l" -> {Tr(lang, "", DayNames[wd + 1])}
       [] l = "L" -> {IF LeapYear(x.y) THEN "true" ELSE "false"}
       [] l = "m" -> {Pad2(x.m)}
       [] l = "M" -> {Month3Capital(lang, x.m)}
       [] l = "n" -> {ToString(x.m)}
       [] l = "N" -> {Tr(lang, "abbrev. month", MonthAP[x.m])}
       [] l = "o" -> {ToString(iso.y)}
       [] l = "O" -> {OffsetText(z.off)}
       [] l = "P" -> {IF min = 0 /\ hour = 0 THEN Tr(lang, "", "midnight") ELSE IF min = 0 /\ hour = 12 THEN Tr(lang, "", "noon") ELSE short \o " " \o half}
       [] l = "r" -> {Day3[wd + 1] \o ", " \o Pad2(x.d) \o " " \o Month3Upper[x.m] \o " " \o Pad4(x.y) \o " " \o time \o " " \o OffsetText(z.off)}
       [] l = "s" -> {Pad2(sec)}
       [] l = "S" -> {Suffix(x.d)}
       [] l = "t" -> {ToString(MonthLen(x.y, x.m))}
       [] l = "T" -> {local}
       [] l = "u" -> {micro}
       [] l = "U" -> {UnixText(t.d, t.s)}
       [] l = "w" -> {ToString(wd)}
       [] l = "W" -> {ToString(iso.w)}
       [] l = "y" -> {Pad2(x.y % 100)}
       [] l = "Y" -> {Pad4(x.y)}
       [] l = "z" -> {ToString(x.yd)}
       [] l = "Z" -> {ToString(z.off)}
       [] OTHER -> {l}
\* the tokens of a format: an escaped character stands for itself, and so does a last backslash
RECURSIVE Tokens(_, _)
Tokens(f, i) ==
  IF i > Len(f) THEN <<>>
  ELSE IF f[i] = "\\" THEN IF i = Len(f) THEN <<[lit |-> "\\"]>> ELSE <<[lit |-> f[i + 1]]>> \o Tokens(f, i + 2)
  ELSE <<[let |-> f[i]]>> \o Tokens(f, i + 1)
RECURSIVE Written(_, _, _, _, _)
Written(lang, toks, t, z, local) ==
  IF toks = <<>> THEN {""}
  ELSE LET here == IF "lit" \in DOMAIN toks[1] THEN {toks[1].lit} ELSE Letter(lang, toks[1].let, t, z, local)
           rest == Written(lang, Tail(toks), t, z, local)
       IN {a \o b : a \in here, b \in rest}
FormatTexts(lang, f, t, z, local) == Written(lang, Tokens(f, 1), t, z, local)
\* the predefined formats, and those of the language "de", where some are left to the defaults
DefaultFormats == [DATE_FORMAT |-> "N j, Y", TIME_FORMAT |-> "P", DATETIME_FORMAT |-> "N j, Y, P", YEAR_MONTH_FORMAT |-> "F Y",
                   MONTH_DAY_FORMAT |-> "F j", SHORT_DATE_FORMAT |-> "m/d/Y", SHORT_DATETIME_FORMAT |-> "m/d/Y P"]
GermanFormats == [DefaultFormats EXCEPT !.DATE_FORMAT = "j. F Y", !.TIME_FORMAT = "H:i", !.DATETIME_FORMAT = "j. F Y H:i", !.MONTH_DAY_FORMAT = "j. F", !.SHORT_DATE_FORMAT = "d.m.Y"]
OwnFormats(lang) == IF lang = "de" THEN GermanFormats ELSE DefaultFormats
CharsOf(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
FormatOf(lang, f) == IF f \in DOMAIN DefaultFormats THEN OwnFormats(lang)[f] ELSE f
TimeTexts(lang, f, t, z, local) == FormatTexts(lang, CharsOf(FormatOf(lang, f)), t, z, local)
(* A deviation of the code: the letter c gives the nanoseconds without        *)
(* leading zeros.                                                             *)
UnpaddedFraction(t, z) ==
  LET here == Local(t, z.off)
      x == DateOf(here.d)
  IN {Pad4(x.y) \o "-" \o Pad2(x.m) \o "-" \o Pad2(x.d) \o "T" \o Pad2(here.s \div 3600) \o ":" \o Pad2((here.s \div 60) % 60) \o ":" \o Pad2(here.s % 60) \o "." \o ToString(t.n)}
\* the text of a day relative to today, both as day numbers
DayTexts(lang, v, z, today, local) ==
  LET k == Local(v, z.off).d - today
  IN IF k \in {-1, 0, 1} THEN {Tr(lang, "", <<"yesterday", "today", "tomorrow">>[k + 2])} ELSE TimeTexts(lang, "DATE_FORMAT", v, z, local)
=============================================================================
