----------------------------- MODULE HumanStory -----------------------------
(* Collections of humanized languages, the humanizers made from them and what *)
(* these say, while further collections are made from the same data and the   *)
(* caller changes the data.                                                   *)
(*                                                                            *)
(* state: pool   the caller's data, [tag, file, part, fmt]; fmt: one number   *)
(*               for each of seven formats, 0 = not defined                   *)
(*        colls  the collections, each a sequence of languages                *)
(*               [tag, id, part, fmt], in the order of preference             *)
(*        fbs    their fallback languages, "" if there is none                *)
(*        hums   the humanizers [tag, id, part, fmt], id 0 = English          *)
(*        subs   for each the language that stands in for missing texts       *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Formats == 7
NoFormat == [f \in 1..Formats |-> 0]
English == [tag |-> "en", id |-> 0, part |-> FALSE, fmt |-> NoFormat]
\* English texts for 4 February 2003, 16:05
Defaults == <<"Feb. 4, 2003", "4:05 p.m.", "Feb. 4, 2003, 4:05 p.m.", "February 2003", "February 4", "02/04/2003", "02/04/2003 4:05 p.m.">>
\* the text of the format with the given number
Custom(f, n) == "<" \o ToString(f) \o ":" \o ToString(n) \o ">"

RECURSIVE Distinct(_)
\* the first of each
Distinct(s) == IF s = <<>> THEN <<>> ELSE LET r == Distinct(Front(s)) x == s[Len(s)] IN IF x \in {r[i] : i \in DOMAIN r} THEN r ELSE Append(r, x)
Start(pool) == [pool |-> pool, colls |-> <<>>, fbs |-> <<>>, hums |-> <<>>, subs |-> <<>>]
MakeColl(pool, ls, fb) ==
  LET all == Distinct(SelectSeq(ls, LAMBDA i : pool[i].tag = fb) \o ls)   \* the fallback language is loaded first
      there == SelectSeq(all, LAMBDA i : (pool[i].file # "missing" \/ pool[i].tag = "en") /\ pool[i].tag # "und")
  IN [j \in 1..Len(there) |-> [tag |-> pool[there[j]].tag, id |-> there[j], part |-> pool[there[j]].part, fmt |-> pool[there[j]].fmt]]
\* the texts of English are never read
\* and a fallback language is required
Broken(pool, ls, fb) == \/ fb \notin {"", "en"} /\ ~\E j \in DOMAIN ls : pool[ls[j]].tag = fb /\ pool[ls[j]].file = "ok"
                        \/ \E j \in DOMAIN ls : pool[ls[j]].file = "broken" /\ pool[ls[j]].tag \notin {"und", "en"}
\* English is always there, before all but the fallback language; its texts are those of the program
Langs(coll, fb) == LET tags == [j \in DOMAIN coll |-> coll[j].tag]
                   IN SelectSeq(tags, LAMBDA t : t = fb /\ t # "en") \o <<"en">> \o SelectSeq(tags, LAMBDA t : t \notin {"en", fb})
OfTag(coll, tag) == IF \E j \in DOMAIN coll : coll[j].tag = tag THEN coll[CHOOSE j \in DOMAIN coll : coll[j].tag = tag] ELSE English
Translated(h, t) == IF h.tag = "en" THEN t ELSE "p" \o ToString(h.id) \o "{|" \o t \o "}"
Say(h, sub, x) ==
  CASE x.what = "lang" -> h.tag
    [] x.what = "today" -> Translated(h, "today")
    \* not every catalog has the text for sizes
    [] x.what = "bytes" -> LET t == ToString(x.n) \o IF x.n = 1 THEN " byte" ELSE " bytes" IN IF h.part /\ h.tag # "en" THEN (IF sub.part THEN t ELSE Translated(sub, t)) ELSE Translated(h, t)
    [] x.what = "format" -> IF h.fmt[x.n] = 0 THEN Defaults[x.n] ELSE Custom(x.n, h.fmt[x.n])
(* One step; ans: what the matcher says to the requests, [l, ok]. *)
Do(st, x, ans) ==
  CASE x.k = "new" -> IF Broken(st.pool, x.ls, x.fb) THEN [st |-> st, res |-> "error"]
                      ELSE [st |-> [st EXCEPT !.colls = Append(@, MakeColl(st.pool, x.ls, x.fb)), !.fbs = Append(@, x.fb)], res |-> "ok"]
    [] x.k = "edit" -> [st |-> [st EXCEPT !.pool[x.p].fmt[x.n] = x.v], res |-> ""]
    [] x.k = "hum" -> IF x.c \notin DOMAIN st.colls THEN [st |-> st, res |-> ""]
                      ELSE LET coll == st.colls[x.c]
                               \* English, unless another fallback language is there
                               other == IF \E j \in DOMAIN coll : coll[j].tag = st.fbs[x.c] THEN st.fbs[x.c] ELSE "en"
                               h == OfTag(coll, IF ans.ok THEN ans.l ELSE other)
                           IN [st |-> [st EXCEPT !.hums = Append(@, h), !.subs = Append(@, OfTag(coll, other))], res |-> h.tag]
    [] x.k = "ask" -> IF x.h \notin DOMAIN st.hums THEN [st |-> st, res |-> ""] ELSE [st |-> st, res |-> Say(st.hums[x.h], st.subs[x.h], x)]
=============================================================================
