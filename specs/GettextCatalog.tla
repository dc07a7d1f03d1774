--------------------------- MODULE GettextCatalog ---------------------------
(* Catalogs from PO and MO files: which entries they serve, the plural rule   *)
(* they use and what a lookup gives.                                          *)
(*                                                                            *)
(* file: [kind |-> "po"/"mo", cldr |-> the decoder asks for CLDR rules,       *)
(*        pf |-> Plural-Forms header, x |-> X-spreak-use-CLDR header,         *)
(*        head |-> there is a header entry, msgs]                             *)
(* msgs: sequence of [c |-> context, m |-> id, f |-> forms [i, s], flags,     *)
(*        obs |-> obsolete]                                                   *)
EXTENDS CldrTable
G == INSTANCE PluralForms

(* ---- the plural rule ---- *)
FlagTrue(x) == LowerAll(Trim(x)) = Codes("true")
\* rows: of the language; 0 if the CLDR does not know it
\* p: the parsed Plural-Forms header
RuleWith(file, row, p) ==
  LET pf == IF file.head THEN Trim(file.pf) ELSE <<>>
      asked == file.cldr \/ (file.head /\ FlagTrue(file.x))
      cldr == [k |-> "cldr", rules |-> Rules[IF row = 0 THEN English ELSE row]]
  IN IF pf = <<>> \/ (asked /\ row # 0) THEN [z |-> "ok", r |-> cldr]
     ELSE IF p.z \in {"ok", "loose"} THEN [z |-> p.z, r |-> [k |-> "header", n |-> p.n]]
     ELSE [z |-> p.z]
RuleOf(file, row) == RuleWith(file, row, G!ParseHeader(IF file.head THEN Trim(file.pf) ELSE <<>>))
\* the forms that a number may have, as digits; Free: nothing is known
Free == {[free |-> TRUE]}
FormsOfRule(rule, v) ==
  IF rule.k = "header" THEN LET f == G!FormsOf(rule.n, v) IN IF f = {} THEN Free ELSE f
  ELSE LET cats == CatsOf(rule.rules)
           form(c) == [v |-> Of10((CHOOSE i \in 1..Len(cats) : cats[i] = c) - 1)]
           x == Operands(v)
       IN {IF "e" \in DOMAIN o THEN o ELSE form(o.v) : o \in CatOutcomes(rule.rules, v)}
          \cup IF \E o \in x.ops : ~Exact(o) THEN {form(cats[i]) : i \in 1..Len(cats)} ELSE {}

(* ---- entries ---- *)
FUZZY == Codes("fuzzy")
Finished(file) == SelectSeq(file.msgs, LAMBDA x : ~x.obs /\ x.m # <<>> /\ FUZZY \notin ToSet(x.flags))
Present(file) == SelectSeq(file.msgs, LAMBDA x : ~x.obs)
TextAt(msg, form) == LET i == SelectInSeq(msg.f, LAMBDA y : Of10(y.i) = form) IN IF i = 0 THEN <<>> ELSE msg.f[i].s

\* files without any entry may be rejected
Void(file) == Present(file) = <<>> /\ ~file.head

(* ---- lookups: [c, m, pl, n] ---- *)
NoErr == [k |-> "", l |-> "", d |-> "", c |-> <<>>, m |-> <<>>, i |-> Zero10]
AskForm(lang, domain, file, q, form) ==
  LET miss(k, id, i) == [s |-> q.m, e |-> [k |-> k, l |-> lang, d |-> domain, c |-> q.c, m |-> id, i |-> i]]
      here == SelectSeq(Finished(file), LAMBDA x : x.c = q.c)
      hit == SelectSeq(here, LAMBDA x : x.m = q.m)
      \* a context of which nothing is served may count as missing or not
      some == \E i \in 1..Len(Present(file)) : Present(file)[i].c = q.c
      noCtx == miss("ctx", <<>>, Zero10)
      noMsg == miss("msg", q.m, Zero10)
  IN IF hit # <<>> THEN IF TextAt(hit[1], form) = <<>> THEN {miss("tr", q.m, form)} ELSE {[s |-> TextAt(hit[1], form), e |-> NoErr]}
     ELSE IF here # <<>> THEN {noMsg}
     ELSE IF some \/ (q.c = <<>> /\ file.head) THEN {noMsg, noCtx}
     ELSE {noCtx}
\* forms: of the number
AskAt(lang, domain, file, q, forms) ==
  IF ~q.pl THEN AskForm(lang, domain, file, q, Zero10)
  ELSE UNION {IF "e" \in DOMAIN f THEN {[s |-> q.m, e |-> [NoErr EXCEPT !.k = "other"]]}
              ELSE IF "free" \in DOMAIN f THEN {f}
              ELSE AskForm(lang, domain, file, q, f.v) : f \in forms}
Ask(lang, domain, file, rule, q) == AskAt(lang, domain, file, q, IF q.pl THEN FormsOfRule(rule, q.n) ELSE {})
AnswerOK(allowed, got) == got \in allowed \/ Free \subseteq allowed
=============================================================================
