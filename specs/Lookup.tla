------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Life of a bundle: creation (Bundle.tla) followed by a sequence of       *)
(* requests (cfg.steps). A request creates a localizer (language           *)
(* negotiation), resolves the accessor's omitted arguments and consults    *)
(* the selected language, the fallback language and the source text.       *)
(*                                                                         *)
(* cfg.cats entries: [l, d, st, kind "po"/"json", rule, msgs]              *)
(*   msgs: sequence of [c, m, f] with f a sequence of forms [i, t]         *)
(* cfg.steps entries: [k |-> "get"/"loc"/"err"/"print"/"info", ...]        *)
(* look: the request in progress and the outcomes of the finished ones     *)
(***************************************************************************)
EXTENDS Bundle, SequencesExt, Integers, Printf

VARIABLE look

lvars == <<cfg, b, look>>

----------------------------------------------------------------------------
(* Plural forms of the rules used in catalogs; n is a natural number.       *)
\* Variants of a language (fr-CA, de-u-co-phonebk) have its rules.
BaseOf(l) == IF Len(l) > 2 /\ SubSeq(l, 3, 3) = "-" THEN SubSeq(l, 1, 2) ELSE l
RuFormOf(n) == IF n % 10 = 1 /\ n % 100 # 11 THEN 0
               ELSE IF n % 10 \in 2..4 /\ n % 100 \notin 12..14 THEN 1 ELSE 2
Categories(l) == CASE BaseOf(l) \in {"ja"} -> <<"other">>
                   [] BaseOf(l) \in {"fr"} -> <<"one", "many", "other">>
                   [] BaseOf(l) \in {"ru"} -> <<"one", "few", "many", "other">>
                   [] OTHER -> <<"one", "other">>
Category(l, n) == CASE BaseOf(l) \in {"ja"} -> "other"
                    [] BaseOf(l) \in {"fr"} -> IF n <= 1 THEN "one" ELSE IF n % 1000000 = 0 THEN "many" ELSE "other"
                    [] BaseOf(l) \in {"ru"} -> <<"one", "few", "many">>[RuFormOf(n) + 1]
                    [] OTHER -> IF n = 1 THEN "one" ELSE "other"
CategoryNumber(c) == CASE c = "zero" -> 0 [] c = "one" -> 1 [] c = "two" -> 2
                       [] c = "few" -> 3 [] c = "many" -> 4 [] c = "other" -> 5
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
GettextForm(rule, l, n) ==
  CASE rule = "ne1"  -> IF n # 1 THEN 1 ELSE 0
    [] rule = "gt1"  -> IF n > 1 THEN 1 ELSE 0
    [] rule = "zero" -> 0
    [] rule = "ru"   -> RuFormOf(n)
    [] rule = "cldr" -> IndexIn(Categories(l), Category(l, n)) - 1
\* Whether the source text takes its plural form.
SourceIsPlural(l, n) == CASE BaseOf(l) \in {"ja"} -> FALSE
                          [] BaseOf(l) \in {"fr"} -> n > 1
                          [] BaseOf(l) \in {"ru"} -> RuFormOf(n) # 0
                          [] OTHER -> n # 1

----------------------------------------------------------------------------
(* One catalog asked for one message.                                       *)
Hit(t) == [t |-> t, e |-> NoErr]
Miss(e) == [t |-> "", e |-> e]

\* The translation of form i: the first message of that context and id holds it.
MsgsOf(cat, c, m) == SelectSeq(cat.msgs, LAMBDA x : x.c = c /\ x.m = m)
FormText(msg, i) == LET h == SelectSeq(msg.f, LAMBDA y : y.i = i) IN IF h = <<>> THEN "" ELSE h[1].t

AskGettext(cat, q) ==
  IF q.pl /\ q.n.k # "int" THEN Miss(OtherErr)
  ELSE LET i == IF q.pl THEN GettextForm(cat.rule, cat.l, q.n.i) ELSE 0
           ms == MsgsOf(cat, q.c, q.s)
       IN IF \A j \in 1..Len(cat.msgs) : cat.msgs[j].c # q.c THEN Miss(Err("ctx", cat.l, q.d, q.c, "", 0))
          ELSE IF ms = <<>> THEN Miss(Err("msg", cat.l, q.d, q.c, q.s, 0))
          ELSE IF FormText(ms[1], i) = "" THEN Miss(Err("tr", cat.l, q.d, q.c, q.s, i))
          ELSE Hit(FormText(ms[1], i))

\* JSON messages are identified by their key, which ends with the context. Forms are
\* numbered like CategoryNumber; a message with no form but "other" is not a plural message.
AskJSON(cat, q) ==
  IF q.pl /\ q.n.k # "int" THEN Miss(OtherErr)
  ELSE LET key == IF q.c = "" THEN q.s ELSE q.s \o "_" \o q.c
           i == IF q.pl THEN CategoryNumber(Category(cat.l, q.n.i)) ELSE 5
           ms == MsgsOf(cat, q.c, key)
       IN IF \A j \in 1..Len(cat.msgs) : cat.msgs[j].c # q.c THEN Miss(Err("ctx", cat.l, q.d, q.c, "", 0))
          ELSE IF ms = <<>> THEN Miss(Err("msg", cat.l, q.d, q.c, key, 0))
          ELSE IF FormText(ms[1], i) = "" THEN Miss(Err("tr", cat.l, q.d, q.c, key, i))
          ELSE Hit(FormText(ms[1], i))

AskCatalog(cat, q) == IF cat.kind = "json" THEN AskJSON(cat, q) ELSE AskGettext(cat, q)

----------------------------------------------------------------------------
(* Locales of the finished bundle.                                          *)
LocaleOf(l) == b.locs[CHOOSE i \in 1..Len(b.locs) : b.locs[i].l = l]
SourceLocale == IF b.src \in LocLangs THEN LocaleOf(b.src) ELSE [l |-> b.src, src |-> TRUE, doms |-> {}]
FallbackLocale == IF b.fb \in LocLangs THEN LocaleOf(b.fb) ELSE SourceLocale

Consult(loc, q) ==
  IF loc.src THEN Hit(IF q.pl /\ q.p # "" /\ q.n.k = "int" /\ SourceIsPlural(loc.l, q.n.i) THEN q.p ELSE q.s)
  ELSE IF q.d \notin loc.doms THEN Miss(Err("dom", loc.l, q.d, "", "", 0))
  ELSE AskCatalog(CatOf(cfg, loc.l, q.d), q)
\* Even the source locale reports a number it cannot use.
ReportOf(loc, q, r) ==
  IF loc.src THEN (IF q.pl /\ q.n.k # "int" THEN <<OtherErr>> ELSE <<>>)
  ELSE IF r.e.k # "" THEN <<r.e>> ELSE <<>>

----------------------------------------------------------------------------
(* Language negotiation. Requests: [k "tag", t], [k "al", q: seq of [t, w]], *)
(* [k "bad"] (malformed string), [k "type"] (other type), [k "none"].        *)
RECURSIVE ByWeight(_)
ByWeight(q) == IF q = <<>> THEN <<>>
               ELSE LET top == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[j].w < q[i].w \/ (q[j].w = q[i].w /\ i <= j)
                    IN <<q[top].t>> \o ByWeight(SubSeq(q, 1, top - 1) \o SubSeq(q, top + 1, Len(q)))
TagsOf(r) == CASE r.k = "tag" -> <<r.t>>
               [] r.k = "al" -> ByWeight(SelectSeq(r.q, LAMBDA x : x.w > 0))
               [] OTHER -> <<>>
Requested(rs) == FlattenSeq([i \in 1..Len(rs) |-> TagsOf(rs[i])])

\* The matcher the bundle was configured with: "exact" knows only equal tags, "low"
\* otherwise offers the last language with low confidence, "no" the last with none.
Match(tags) ==
  IF cfg.matcher = "std" THEN cfg.ans[look.i] ELSE    \* the answer of the standard matcher, recorded
  LET langs == b.langs
      hits == { i \in 1..Len(tags) : tags[i] \in Range(langs) }
  IN IF hits # {} THEN [l |-> tags[CHOOSE i \in hits : \A j \in hits : i <= j], ok |-> TRUE]
     ELSE [l |-> IF langs = <<>> THEN "" ELSE langs[Len(langs)],
           ok |-> cfg.matcher = "low" /\ langs # <<>> /\ tags # <<>>]

Negotiate(tags) == IF Match(tags).ok THEN [loc |-> LocaleOf(Match(tags).l), found |-> TRUE]
                   ELSE [loc |-> FallbackLocale, found |-> FALSE]

----------------------------------------------------------------------------
(* Formatting: which printer speaks. "tag" marks language, text and arguments, *)
(* "func" text and arguments; the default one is printf with the number          *)
(* grouping of the language (Printf.tla).                                        *)
RECURSIVE JoinVars(_)
Show(v) == IF v.k = "int" THEN ToString(v.i) ELSE v.s
JoinVars(v) == IF v = <<>> THEN "" ELSE IF Len(v) = 1 THEN Show(v[1]) ELSE Show(v[1]) \o "," \o JoinVars(Tail(v))
Format(l, t, v) ==
  CASE b.pr = "tag"  -> "<" \o l \o "|" \o t \o "|" \o JoinVars(v) \o ">"
    [] b.pr = "func" -> "{" \o t \o "|" \o JoinVars(v) \o "}"
    [] OTHER         -> IF v = <<>> THEN t ELSE Printf(l, t, v)

----------------------------------------------------------------------------
(* A request and the arguments its accessor leaves out.                      *)
Step == cfg.steps[look.i]

LocalizerDomain(s) == IF s.hasld THEN s.ld ELSE b.dom

Query(s) ==
  CASE s.k = "get" -> [d |-> IF s.a.d THEN s.d ELSE LocalizerDomain(s), c |-> IF s.a.c THEN s.c ELSE "",
                       s |-> s.s, p |-> IF s.a.n THEN (IF s.key THEN s.s ELSE s.p) ELSE "",
                       pl |-> s.a.n, n |-> s.n, v |-> IF s.a.f THEN s.v ELSE <<>>]
    [] s.k \in {"loc", "errm"} ->
                      [d |-> IF s.hasd THEN s.d ELSE LocalizerDomain(s), c |-> s.c, s |-> s.s, p |-> s.p,
                       pl |-> s.p # "", n |-> s.n, v |-> s.v]
    [] OTHER       -> [d |-> LocalizerDomain(s), c |-> b.ectx, s |-> s.s, p |-> "", pl |-> FALSE,
                       n |-> [k |-> "int", i |-> 0], v |-> <<>>]

NoOut == [s |-> "", e |-> NoErr, cb |-> <<>>, l |-> "", h |-> FALSE, dd |-> "", same |-> FALSE, un |-> FALSE, doms_set |-> {}]
InitLook == [ph |-> "idle", i |-> 1, loc |-> [l |-> "", src |-> TRUE, doms |-> {}], found |-> FALSE,
             q |-> <<>>, first |-> NoErr, cb |-> <<>>, res |-> "", err |-> NoErr, outs |-> <<>>]

LookupInit == look = InitLook

Request ==
  /\ b.ph = "done" /\ look.ph = "idle" /\ look.i <= Len(cfg.steps)
  /\ LET n == Negotiate(Requested(Step.req)) IN
     look' = [look EXCEPT !.ph = IF Step.k \in {"nil", "errnil", "print", "info", "supp"} THEN "answer" ELSE "selected",
                          !.loc = n.loc, !.found = n.found, !.first = NoErr, !.err = NoErr, !.cb = <<>>,
                          !.q = IF Step.k \in {"nil", "errnil", "print", "info", "supp"} THEN <<>> ELSE Query(Step)]
  /\ UNCHANGED <<cfg, b>>

Report(rep) == IF b.cb THEN look.cb \o rep ELSE look.cb

ConsultSelected ==
  /\ look.ph = "selected"
  /\ LET r == Consult(look.loc, look.q)
         rep == Report(ReportOf(look.loc, look.q, r))
     IN look' = IF r.e.k = "" THEN [look EXCEPT !.ph = "answer", !.cb = rep, !.res = Format(look.loc.l, r.t, look.q.v),
                                               !.err = IF look.found THEN NoErr ELSE OtherErr]
                ELSE [look EXCEPT !.ph = IF look.loc = FallbackLocale THEN "source" ELSE "fallback",
                                  !.cb = rep, !.first = r.e]
  /\ UNCHANGED <<cfg, b>>

ConsultFallback ==
  /\ look.ph = "fallback"
  /\ LET r == Consult(FallbackLocale, look.q)
         rep == Report(ReportOf(FallbackLocale, look.q, r))
     IN look' = IF r.e.k = "" THEN [look EXCEPT !.ph = "answer", !.cb = rep, !.err = look.first,
                                               !.res = Format(FallbackLocale.l, r.t, look.q.v)]
                ELSE [look EXCEPT !.ph = "source", !.cb = rep]
  /\ UNCHANGED <<cfg, b>>

UseSource ==
  /\ look.ph = "source"
  /\ LET r == Consult(SourceLocale, look.q)
     IN look' = [look EXCEPT !.ph = "answer", !.err = look.first, !.res = Format(SourceLocale.l, r.t, look.q.v),
                             !.cb = Report(ReportOf(SourceLocale, look.q, r))]
  /\ UNCHANGED <<cfg, b>>

\* What the caller sees. Only the accessors that return an error show it.
Answer(s) ==
  LET base == [NoOut EXCEPT !.cb = look.cb, !.l = look.loc.l, !.h = look.found, !.dd = LocalizerDomain(s)] IN
  CASE s.k = "get"    -> [base EXCEPT !.s = look.res]
    [] s.k = "loc"    -> [base EXCEPT !.s = look.res, !.e = look.err]
    [] s.k = "nil"    -> [base EXCEPT !.s = "<nil>", !.e = OtherErr]
    [] s.k = "errnil" -> [base EXCEPT !.same = TRUE]
    [] s.k = "print"  -> [base EXCEPT !.s = Format(look.loc.l, s.s, s.v)]
    [] s.k = "info"   -> [base EXCEPT !.doms_set = look.loc.doms]
    [] s.k = "supp"   -> [NoOut EXCEPT !.h = look.found]
    [] OTHER          -> IF look.err.k = "" THEN [base EXCEPT !.s = look.res, !.un = TRUE]
                         ELSE [base EXCEPT !.s = s.s, !.same = TRUE, !.un = TRUE]

Respond ==
  /\ look.ph = "answer"
  /\ look' = [look EXCEPT !.ph = "idle", !.i = @ + 1, !.outs = Append(@, Answer(Step))]
  /\ UNCHANGED <<cfg, b>>

LookupNext == Request \/ ConsultSelected \/ ConsultFallback \/ UseSource \/ Respond

SessionNext == (BundleNext /\ UNCHANGED look) \/ LookupNext
SessionOver == b.ph = "fail" \/ (b.ph = "done" /\ look.i > Len(cfg.steps) /\ look.ph = "idle")
SessionOutcome == [new |-> Outcome(b), outs |-> look.outs]

----------------------------------------------------------------------------
(* Properties of the design.                                                *)
LocalizersWorkInKnownLanguages == look.loc.l = "" \/ look.loc.l = b.src \/ look.loc.l \in LocLangs
Answered == { i \in 1..Len(look.outs) : cfg.steps[i].k \in {"get", "loc", "err", "errm"} }
\* Without a callback nothing is reported, and a found translation reports nothing.
ReportsOnlyMisses ==
  \A i \in Answered : \A j \in 1..Len(look.outs[i].cb) : look.outs[i].cb[j].k \in {"dom", "ctx", "msg", "tr", "other"}
SilentIfNotConfigured == ~b.cb => \A i \in 1..Len(look.outs) : look.outs[i].cb = <<>>
\* At most one report per consulted locale.
ReportsBounded == \A i \in Answered : Len(look.outs[i].cb) <= 3
\* Success is reported iff the requested language was matched and delivered.
ErrorIffNotDelivered ==
  \A i \in Answered : cfg.steps[i].k = "loc" /\ ~look.outs[i].h => look.outs[i].e.k # ""
\* An accessor that is given nothing but a text in an unmatched language answers with a text
\* of the source or fallback language.
AlwaysAText == \A i \in Answered : look.outs[i].s # "" \/ cfg.steps[i].s = ""
=============================================================================
