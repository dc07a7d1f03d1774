------------------------------- MODULE Bundle -------------------------------
(***************************************************************************)
(* Creation of a bundle (spreak.NewBundle) as a state machine.             *)
(*                                                                         *)
(* cfg  what the caller supplies, constant during a behaviour:             *)
(*        opts : sequence of options                                       *)
(*        cats : sequence of [l, d, st, ...] - what the loader of domain d *)
(*               answers for language l ("ok", "broken"; anything not      *)
(*               listed is missing)                                        *)
(* b    the builder: options are applied first (ApplyOption), then the     *)
(*      deferred loading requests are executed language by language        *)
(*      (BeginLanguage), for each language the domains in ANY order        *)
(*      (LoadDomain: the code iterates over a map), then EndLanguage;      *)
(*      Finish publishes the immutable bundle.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Functions

VARIABLES cfg, b

bvars == <<cfg, b>>


\* Errors as the library reports them: kind, language, domain, context, message, form index.
NoErr == [k |-> "", l |-> "", d |-> "", c |-> "", m |-> "", i |-> 0]
Err(k, l, d, c, m, i) == [k |-> k, l |-> l, d |-> d, c |-> c, m |-> m, i |-> i]
OtherErr == Err("other", "", "", "", "", 0)
NotFound(l, d) == Err("notfound", l, d, "", "", 0)
MissingLanguage(l) == Err("lang", l, "", "", "", 0)

RECURSIVE DedupeAcc(_, _)
DedupeAcc(s, acc) == IF s = <<>> THEN acc
                     ELSE DedupeAcc(Tail(s), IF Head(s) \in Range(acc) THEN acc ELSE Append(acc, Head(s)))
Dedupe(s) == DedupeAcc(s, <<>>)

Found(cf, l, d) == { i \in 1..Len(cf.cats) : cf.cats[i].l = l /\ cf.cats[i].d = d }
Avail(cf, l, d) == IF Found(cf, l, d) = {} THEN "missing"
                   ELSE cf.cats[CHOOSE i \in Found(cf, l, d) : \A j \in Found(cf, l, d) : i <= j].st
CatOf(cf, l, d) == cf.cats[CHOOSE i \in Found(cf, l, d) : \A j \in Found(cf, l, d) : i <= j]

InitBuilder == [ph |-> "opts", i |-> 1,
                src |-> "und", fb |-> "und", dom |-> "", ectx |-> "errors", cb |-> FALSE, pr |-> "default",
                loaders |-> {}, acts |-> <<>>, ai |-> 1, li |-> 1,
                todo |-> {}, got |-> {}, locs |-> <<>>, langs |-> <<>>, doms |-> {},
                log |-> <<>>, err |-> NoErr]

Fail(e) == [b EXCEPT !.ph = "fail", !.err = e]
Logged(x, e) == IF x.cb THEN [x EXCEPT !.log = Append(@, e)] ELSE x

\* Languages are given as [k, t]: k = "bad" (does not parse) or "type" (wrong Go type) or anything else.
BadItem(it) == it.k \in {"bad", "type"}

OptionEffect(o) ==
  CASE o.k = "invalid" -> Fail(OtherErr)                        \* nil option, nil printer, nil loader, ...
    [] o.k = "lang"    -> [b EXCEPT !.acts = Append(@, [req |-> o.req, ls |-> o.ls])]
    [] o.k = "src"     -> [b EXCEPT !.src = o.ls[1].t, !.acts = Append(@, [req |-> TRUE, ls |-> o.ls])]
    [] o.k = "fb"      -> IF BadItem(o.ls[1]) THEN Fail(OtherErr)
                          ELSE [b EXCEPT !.fb = o.ls[1].t, !.acts = Append(@, [req |-> TRUE, ls |-> o.ls])]
    [] o.k = "cb"      -> [b EXCEPT !.cb = TRUE]
    [] o.k = "nocb"    -> [b EXCEPT !.cb = FALSE]
    [] o.k = "dom"     -> [b EXCEPT !.dom = o.s]
    [] o.k = "ectx"    -> [b EXCEPT !.ectx = o.s]
    [] o.k = "printer" -> [b EXCEPT !.pr = o.s]
    [] o.k = "loader"  -> IF o.s \in b.loaders THEN Fail(OtherErr) ELSE [b EXCEPT !.loaders = @ \cup {o.s}]

ApplyOption ==
  /\ b.ph = "opts"
  /\ IF b.i > Len(cfg.opts) THEN b' = [b EXCEPT !.ph = "setup"]
     ELSE LET n == OptionEffect(cfg.opts[b.i]) IN b' = [n EXCEPT !.i = @ + 1]
  /\ UNCHANGED cfg

\* The language under consideration, and moving on to the next one.
Act == b.acts[b.ai]
Lang == Act.ls[b.li]
NextLang(x) == IF b.li < Len(Act.ls) THEN [x EXCEPT !.ph = "setup", !.li = @ + 1]
               ELSE [x EXCEPT !.ph = "setup", !.ai = @ + 1, !.li = 1]
LocLangs == { b.locs[i].l : i \in 1..Len(b.locs) }
AddLocale(x, loc) == [x EXCEPT !.langs = Append(@, loc.l),
                               !.locs = Append(SelectSeq(@, LAMBDA q : q.l # loc.l), loc)]
\* A language for which nothing was found.
Skip(x, l) == IF Act.req THEN [x EXCEPT !.ph = "fail", !.err = MissingLanguage(l)]
              ELSE NextLang(Logged(x, MissingLanguage(l)))

BeginLanguage ==
  /\ b.ph = "setup" /\ b.ai <= Len(b.acts)
  /\ b' = IF Len(Act.ls) = 0 THEN [b EXCEPT !.ai = @ + 1, !.li = 1]
          ELSE IF BadItem(Lang) THEN Fail(OtherErr)
          ELSE IF Lang.t = "und" THEN Skip(b, "und")
          ELSE IF Lang.t = b.src THEN NextLang(AddLocale(b, [l |-> b.src, src |-> TRUE, doms |-> {}]))
          ELSE IF Lang.t \in LocLangs THEN NextLang(b)          \* a loaded language is not loaded again
          ELSE [b EXCEPT !.ph = "load", !.todo = b.loaders, !.got = {}]
  /\ UNCHANGED cfg

LoadDomain ==
  /\ b.ph = "load"
  /\ \E d \in b.todo :
       LET rest == [b EXCEPT !.todo = @ \ {d}]
           st == Avail(cfg, Lang.t, d)
       IN b' = CASE st = "ok" -> [rest EXCEPT !.got = @ \cup {d}, !.doms = @ \cup {d}]
                 [] st = "broken" -> Fail(OtherErr)
                 [] st = "missing" -> LET x == Logged(rest, NotFound(Lang.t, d))
                                      IN IF Act.req THEN [x EXCEPT !.ph = "fail", !.err = NotFound(Lang.t, d)] ELSE x
  /\ UNCHANGED cfg

EndLanguage ==
  /\ b.ph = "load" /\ b.todo = {}
  /\ b' = IF b.got = {} THEN Skip(b, Lang.t)
          ELSE NextLang(AddLocale(b, [l |-> Lang.t, src |-> FALSE, doms |-> b.got]))
  /\ UNCHANGED cfg

Finish ==
  /\ b.ph = "setup" /\ b.ai > Len(b.acts)
  /\ b' = [b EXCEPT !.ph = "done"]
  /\ UNCHANGED cfg

BundleNext == ApplyOption \/ BeginLanguage \/ LoadDomain \/ EndLanguage \/ Finish

----------------------------------------------------------------------------
(* The observable outcome.                                                  *)
Created(x) == x.ph = "done"
Outcome(x) ==
  [ok |-> Created(x), err |-> x.err, log |-> x.log,
   langs |-> IF Created(x) THEN Dedupe(x.langs) ELSE <<>>,
   sup_set |-> IF Created(x) THEN { x.locs[i].l : i \in 1..Len(x.locs) } ELSE {},
   doms_set |-> IF Created(x) THEN x.doms ELSE {},
   can |-> Created(x) /\ Len(x.locs) > 0 /\ x.doms # {},
   pinit_set |-> IF Created(x) /\ x.pr = "tag" THEN Range(x.langs) ELSE {},
   pearly |-> 0]

----------------------------------------------------------------------------
(* Properties of the design.                                                *)

\* A language is loaded iff it is the source language or some domain had a catalog.
LoadedIffAvailable ==
  Created(b) => \A i \in 1..Len(b.locs) :
     LET L == b.locs[i] IN
     IF L.src THEN L.l = b.src
     ELSE L.doms # {} /\ \A d \in b.loaders : (d \in L.doms) <=> (Avail(cfg, L.l, d) = "ok")

\* A catalog that exists but cannot be loaded is fatal for every requested language.
BrokenIsFatal ==
  Created(b) => \A i \in 1..Len(b.acts) : \A j \in 1..Len(b.acts[i].ls) :
     LET it == b.acts[i].ls[j] IN
       (~BadItem(it) /\ it.t # b.src) => \A d \in b.loaders : Avail(cfg, it.t, d) # "broken"

\* Required languages that are loaded by their own request are complete.
RequiredIsComplete ==
  Created(b) => \A i \in 1..Len(b.acts) : \A j \in 1..Len(b.acts[i].ls) :
     LET it == b.acts[i].ls[j] IN
       b.acts[i].req => it.t \in LocLangs

NoOptionNeverFails == cfg.opts = <<>> => b.ph # "fail"
NeverReportsNil == \A i \in 1..Len(b.log) : b.log[i].k \in {"notfound", "lang"}
SilentWithoutCallback == (\A i \in 1..Len(cfg.opts) : cfg.opts[i].k # "cb") => b.log = <<>>
OneLocalePerLanguage == Cardinality(LocLangs) = Len(b.locs)
=============================================================================
