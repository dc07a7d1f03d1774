------------------------------- MODULE Shipped -------------------------------
(* The languages that come with the humanizers.  A pack is what one of them   *)
(* is made of: [lang |-> "pack:" and the name of its package, dir |-> that    *)
(* name, tag |-> the language it declares, header |-> the language and        *)
(* plural |-> the rule (as codes) of its catalog, texts |-> the translations  *)
(* of each context|id, plurals |-> the ids with plural, [key, many],          *)
(* formats |-> its formats, capitals |-> its short month names, capitalized,  *)
(* nums |-> how numbers are written in the language].                         *)
(* PackSay etc. are what Say etc. in HumanText mean for these languages.      *)
EXTENDS Elapsed, DateFormat, Numerals, Emit
PF == INSTANCE PluralForms
Packs == ndJsonDeserialize(IOEnv.PACKS)
PackIndex == [n \in {Packs[k].lang : k \in DOMAIN Packs} |-> CHOOSE k \in DOMAIN Packs : Packs[k].lang = n]
PackOf(lang) == Packs[PackIndex[lang]]
Rules == [k \in DOMAIN Packs |-> PF!ParseHeader(Packs[k].plural)]
RuleOf(lang) == Rules[PackIndex[lang]]
\* the form (from 1) of a number given by its digits
FormFor(lang, cnt) == PF!Int10(PF!Eval(RuleOf(lang).n, PF!Nat10OfCodes(PF!Codes(cnt)))) + 1
FormsOf(lang, c, one) == LET p == PackOf(lang) IN IF c \o "|" \o one \in DOMAIN p.texts THEN p.texts[c \o "|" \o one] ELSE <<>>
(* A value is [own, en]: how the language and how English writes it.  Without *)
(* a translation the text is English.                                         *)
PackSay(lang, c, one, many, cnt, arg) ==
  LET forms == FormsOf(lang, c, one)
      f == IF many = "" THEN 1 ELSE FormFor(lang, cnt)
      t == IF f \in DOMAIN forms THEN forms[f] ELSE ""
  IN IF t # "" THEN Put(t, arg.own) ELSE Put(IF many = "" \/ cnt = "1" THEN one ELSE many, arg.en)
PackTextArg(t) == [own |-> t, en |-> t]
PackNoArg == PackTextArg("")
PackCount(lang, n) == [own |-> PackOf(lang).nums[ToString(n)], en |-> Grouped(n, ",")]
PackWhole(lang, n) == [own |-> PackOf(lang).nums[n.i], en |-> GroupDigits(n.i, ",")]
NumKey(n) == LET f == NoTrail(n.f) IN (IF n.neg THEN "-" ELSE "") \o n.i \o (IF f = "" THEN "" ELSE "." \o f)
PackPrinted(lang, n) == LET k == NumKey(n) t == PackOf(lang).nums IN IF k \in DOMAIN t THEN {t[k]} ELSE {}
PackPrintedFixed(lang, n) == LET k == NumKey([n EXCEPT !.f = ""]) \o "." \o SubSeq(n.f \o "0", 1, 1) \o "!" t == PackOf(lang).nums IN IF k \in DOMAIN t THEN {t[k]} ELSE {}
PackFormats(lang) == LET own == PackOf(lang).formats IN [f \in DOMAIN DefaultFormats |-> IF own[f] = "" THEN DefaultFormats[f] ELSE own[f]]
PackMonth3Capital(lang, m) == LET t == PackOf(lang).capitals[m] IN IF t = "" THEN Month3Upper[m] ELSE t

(* ---- what every pack promises ---- *)
Lower_ == {SubSeq("abcdefghijklmnopqrstuvwxyz", i, i) : i \in 1..26}
RECURSIVE Prefix(_)
Prefix(s) == IF s # "" /\ SubSeq(s, 1, 1) \in Lower_ THEN SubSeq(s, 1, 1) \o Prefix(SubSeq(s, 2, Len(s))) ELSE ""
\* enAU stands for en-AU
TagOf(dir) == LET p == Prefix(dir) IN IF p = dir THEN dir ELSE p \o "-" \o SubSeq(dir, Len(p) + 1, Len(dir))
\* the language as gettext writes it
GettextOf(dir) == CASE dir = "zhHans" -> "zh_CN" [] dir = "zhHant" -> "zh_TW" [] dir = "srLatn" -> "sr@latin"
                    [] OTHER -> LET p == Prefix(dir) IN IF p = dir THEN dir ELSE p \o "_" \o SubSeq(dir, Len(p) + 1, Len(dir))
Wrong(p, used) == {x \in {<<"package", p.tag>>, <<"catalog", p.header>>, <<"humanizer", used>>} :
                     CASE x[1] = "package" -> x[2] # TagOf(p.dir) [] x[1] = "catalog" -> x[2] # GettextOf(p.dir) [] OTHER -> x[2] # TagOf(p.dir)}

\* the directives of a text, in order; "?" for what is none
RECURSIVE Directives(_)
Directives(t) ==
  IF t = "" THEN <<>>
  ELSE IF SubSeq(t, 1, 1) # "%" THEN Directives(SubSeq(t, 2, Len(t)))
  ELSE IF SubSeq(t, 2, 2) = "%" THEN Directives(SubSeq(t, 3, Len(t)))
  ELSE IF SubSeq(t, 2, 2) \in {"d", "s", "v"} THEN <<SubSeq(t, 2, 2)>> \o Directives(SubSeq(t, 3, Len(t)))
  ELSE IF SubSeq(t, 2, 4) = "[1]" /\ SubSeq(t, 5, 5) \in {"d", "s", "v"} THEN <<SubSeq(t, 5, 5)>> \o Directives(SubSeq(t, 6, Len(t)))
  ELSE <<"?">> \o Directives(SubSeq(t, 2, Len(t)))
Counts == (0..210) \cup {1000, 1001, 2000, 1000000, 1000001, 2000000, 5000000}
Uses(lang) == [n \in Counts |-> FormFor(lang, ToString(n))]
(* A translation shows its value once, as its id does; a form for one number  *)
(* only may spell it out.                                                     *)
Unkept(p) ==
  LET plural == {x.key : x \in {p.plurals[i] : i \in DOMAIN p.plurals}}
      uses == Uses(p.lang)
      many(k) == (CHOOSE x \in {p.plurals[i] : i \in DOMAIN p.plurals} : x.key = k).many
      idOf(k) == CHOOSE i \in 1..Len(k) : SubSeq(k, i, i) = "|" /\ \A j \in 1..(i - 1) : SubSeq(k, j, j) # "|"
      \* none of something is said by another text, if its id says one without a number
      one(k, f) == Cardinality({n \in Counts : uses[n] = f /\ (n > 0 \/ Directives(SubSeq(k, idOf(k) + 1, Len(k))) # <<>>)}) <= 1
      dirs(k) == Directives(IF k \in plural THEN many(k) ELSE SubSeq(k, idOf(k) + 1, Len(k)))
      bad(k, f) == LET t == p.texts[k][f] IN t # "" /\ Directives(t) # dirs(k) /\ ~(k \in plural /\ Directives(t) = <<>> /\ one(k, f))
  IN {[key |-> k, form |-> f - 1, text |-> p.texts[k][f]] : <<k, f>> \in UNION {{<<k, f>> : f \in {g \in DOMAIN p.texts[k] : bad(k, g)}} : k \in {k \in DOMAIN p.texts : dirs(k) # <<>>}}}
\* the forms of plural texts are there for all numbers or for none
Missing(p) ==
  LET used == {Uses(p.lang)[n] : n \in Counts}
  IN {[key |-> x.key, forms |-> {f - 1 : f \in {f \in used : f \notin DOMAIN p.texts[x.key] \/ p.texts[x.key][f] = ""}}] :
        x \in {x \in {p.plurals[i] : i \in DOMAIN p.plurals} :
                 LET t == p.texts[x.key] IN (\E f \in DOMAIN t : t[f] # "") /\ \E f \in used : f \notin DOMAIN t \/ t[f] = ""}}
BadRule(p) == RuleOf(p.lang).z \notin {"ok", "loose"} \/ \E n \in Counts : FormFor(p.lang, ToString(n)) > PF!Int10(RuleOf(p.lang).np)

UTC == [off |-> 0, name |-> "UTC", dst |-> FALSE]
Read(p, f, times) == UNION {TimeTexts(p.lang, f, t, UTC, "") : t \in times}
Apart(p, f, times) == Cardinality(Read(p, f, times)) = Cardinality(times)
Instant(y, m, d, s) == [d |-> DayOf(y, m, d), s |-> s, n |-> 0]
Days == {Instant(y, m, d, 36000) : y \in {2023, 2024}, m \in 1..12, d \in {1, 2, 3, 10, 11, 12, 20, 21, 22, 28}} \cup {Instant(2024, 2, 29, 36000)}
Minutes == {Instant(2024, 3, 5, h * 3600 + m * 60) : h \in 0..23, m \in {0, 1, 5, 10, 15, 30, 50, 51, 59}}
Mixed == {Instant(y, m, d, s) : y \in {2023, 2024}, m \in 1..12, d \in {1, 11, 28}, s \in {0, 3600, 43200, 43260, 46800, 86340}}
OfYear == {t \in Days : DateOf(t.d).y = 2024}
Months == {Instant(y, m, 7, 0) : y \in {2023, 2024}, m \in 1..12}
WeekDays == {Instant(2024, 1, d, 0) : d \in 1..7}
YearMonths == {Instant(2024, m, 7, 0) : m \in 1..12}
Confused(p) ==
  {f \in {"DATE_FORMAT", "SHORT_DATE_FORMAT"} : ~Apart(p, f, Days)}
  \cup {f \in {"TIME_FORMAT"} : ~Apart(p, f, Minutes)}
  \cup {f \in {"DATETIME_FORMAT", "SHORT_DATETIME_FORMAT"} : ~Apart(p, f, Mixed)}
  \cup {f \in {"MONTH_DAY_FORMAT"} : ~Apart(p, f, OfYear)}
  \cup {f \in {"YEAR_MONTH_FORMAT"} : ~Apart(p, f, Months)}
  \cup {f \in {"F", "E", "N"} : ~Apart(p, f, YearMonths)}
  \cup {f \in {"l"} : ~Apart(p, f, WeekDays)}
=============================================================================
