--------------------------- MODULE MC_GettextRule ---------------------------
(* Every combination of decoder, headers and language, with many numbers.     *)
EXTENDS GettextCatalog, Emit
VARIABLES kind, cldr, pf, x, lang, r, ans, pre
S(s) == Codes(s)
Langs == {"en", "de", "fr", "ru", "pl", "ar", "ja", "sl", "lv", "cy", "tlh", "la", "pt", "ga"}
Forms == {"", "nplurals=2; plural=n != 1;", "nplurals=2; plural=n > 1;", "nplurals=1; plural=0;", "nplurals=6; plural=n % 6;",
          "nplurals=3; plural=n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2;",
          "nplurals=2; plural=n == 1 ? 1 : 0;", "nplurals=2; plural=(n == 1) ? 5 : 4;",
          "nplurals=2", "n == 1 ? 0 : 1", "nplurals=2; plural=n ==;", "nplurals=x; plural=0;", "rubbish"}
Flags_ == {"", "true", "TRUE", "True", "tRuE", "false", "no", "truely"}
Texts == <<"zero", "one", "two", "three", "four", "five">>
TextCodes == [i \in 1..6 |-> S(Texts[i])]
FormCodes == [h \in Forms |-> S(h)]
FlagCodes == [h \in Flags_ |-> S(h)]
File(k, cl, pf_, x_) == [kind |-> k, cldr |-> cl, head |-> pf_ # "" \/ x_ # "", pf |-> FormCodes[pf_], x |-> FlagCodes[x_],
         msgs |-> <<[c |-> <<>>, m |-> S("id"), f |-> [i \in 1..6 |-> [i |-> i - 1, s |-> TextCodes[i]]], flags |-> <<>>, obs |-> FALSE],
                    [c |-> S("k"), m |-> S("id"), f |-> <<[i |-> 1, s |-> S("form one")], [i |-> 0, s |-> <<>>]>>, flags |-> <<>>, obs |-> FALSE]>>]
Num(t, s) == [t |-> t, s |-> S(s)]
Nums == <<Num("int", "0"), Num("int", "1"), Num("int", "2"), Num("int", "3"), Num("int", "5"), Num("int", "11"), Num("int", "12"), Num("int", "21"), Num("int", "100"),
          Num("int", "1000000"), Num("str", "1.0"), Num("str", "1.5"), Num("str", "0.5"), Num("float64", "1"), Num("int", "-1"), Num("str", "x"), Num("nil", "1"), Num("str", "2c6")>>
Queries == [i \in 1..Len(Nums) |-> [c |-> <<>>, m |-> S("id"), pl |-> TRUE, n |-> Nums[i]]]
           \o [i \in 1..Len(Nums) |-> [c |-> S("k"), m |-> S("id"), pl |-> TRUE, n |-> Nums[i]]]
           \o <<[c |-> <<>>, m |-> S("id"), pl |-> FALSE, n |-> Nums[1]], [c |-> S("k"), m |-> S("id"), pl |-> FALSE, n |-> Nums[1]]>>
\* pre: what is computed once, the row of the language, the header and the forms of all numbers by the two rules
Before ==
  LET row == RowOf(lang)
      h == G!ParseHeader(FormCodes[pf])
      forms(rule) == [i \in 1..Len(Nums) |-> FormsOfRule(rule, Nums[i])]
  IN [row |-> row, h |-> h, n |-> Len(CatsOf(Rules[IF row = 0 THEN English ELSE row])), cldr |-> forms([k |-> "cldr", rules |-> Rules[IF row = 0 THEN English ELSE row]]),
      head |-> IF h.z = "ok" THEN forms([k |-> "header", n |-> h.n]) ELSE <<>>]
NumOf(i) == IF i > 2 * Len(Nums) THEN 1 ELSE IF i > Len(Nums) THEN i - Len(Nums) ELSE i
Answer(f, forms) == [i \in 1..Len(Queries) |-> AskAt(lang, "d", f, Queries[i], forms[NumOf(i)])]

Init == kind = "" /\ cldr = FALSE /\ pf \in Forms /\ x = "" /\ lang \in Langs /\ r = [z |-> "start"] /\ ans = <<>> /\ pre = <<>>
Next == \/ /\ kind = "" /\ pre = <<>> /\ pre' = Before
           /\ UNCHANGED <<kind, cldr, pf, x, lang, r, ans>>
        \/ /\ kind = "" /\ pre # <<>>
           /\ kind' \in {"po", "mo"} /\ cldr' \in BOOLEAN /\ x' \in Flags_ /\ pre' = [row |-> pre.row, n |-> pre.n] /\ UNCHANGED <<pf, lang>>
           /\ LET f == File(kind', cldr', pf, x')
                  rule == RuleWith(f, pre.row, pre.h)
              IN IF rule.z = "ok" THEN r' = [z |-> "ok", k |-> rule.r.k] /\ ans' = Answer(f, IF rule.r.k = "cldr" THEN pre.cldr ELSE pre.head) ELSE r' = [z |-> rule.z] /\ ans' = <<>>
Asked == cldr \/ x \in {"true", "TRUE", "True", "tRuE"}
Table_ == r.z # "start" =>
  /\ (pf = "" => r.z = "ok" /\ r.k = "cldr")
  /\ (pf # "" /\ ~Asked => r.z = "bad" \/ r.k = "header")
  /\ (pre.row # 0 /\ Asked => r.z = "ok" /\ r.k = "cldr")
  /\ (pre.row = 0 /\ pf # "" => r.z = "bad" \/ r.k = "header")
Decided == r.z \in {"start", "ok", "bad"} /\ (r.z = "ok" => \A i \in 1..Len(Queries) : Cardinality(ans[i]) = 1)
\* CLDR forms are numbered in the order of the categories
Forms_ == r.z = "ok" /\ r.k = "cldr" => \A i \in 1..Len(Nums) : \A a \in ans[i] : a.e.k = "" => \E k \in 1..pre.n : a.s = TextCodes[k]
CaseOut == r.z # "start" => Emit([op |-> "gc.known", in |-> [lang |-> lang, domain |-> "d", file |-> File(kind, cldr, pf, x), style |-> 0, qs |-> Queries],
                 exp |-> <<IF r.z = "bad" THEN [err |-> TRUE] ELSE [err |-> FALSE, ans |-> [i \in 1..Len(Queries) |-> CHOOSE a \in ans[i] : TRUE]]>>])
=============================================================================
