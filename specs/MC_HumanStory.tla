---------------------------- MODULE MC_HumanStory ----------------------------
(* Every short story of humanizers in which requests name languages exactly.  *)
EXTENDS HumanStory, Emit
CONSTANTS MaxSteps, MaxNew
VARIABLES start, st, steps, res
vars == <<start, st, steps, res>>
Fmt(s) == [f \in 1..Formats |-> s[f]]
Data(tag, file, part, fmt) == [tag |-> tag, file |-> file, part |-> part, fmt |-> fmt]
Pools == {<<Data("de", "ok", FALSE, <<11, 12, 13, 14, 15, 16, 17>>), Data("fr", "ok", TRUE, <<21, 0, 23, 0, 25, 0, 0>>), Data("ja", "ok", FALSE, NoFormat)>>,
          <<Data("de", "ok", FALSE, NoFormat), Data("fr", "missing", FALSE, <<21, 22, 23, 24, 25, 26, 27>>), Data("en", "ok", FALSE, <<31, 0, 0, 0, 0, 36, 0>>)>>,
          <<Data("ja", "broken", FALSE, NoFormat), Data("fr", "ok", TRUE, <<0, 0, 0, 0, 0, 0, 27>>), Data("und", "ok", FALSE, <<31, 32, 33, 34, 35, 36, 37>>)>>}
Base == [k |-> "", fb |-> "", ls |-> <<>>, p |-> 1, n |-> 1, v |-> 99, c |-> 1, req |-> <<>>, h |-> 1, what |-> ""]
Request(t) == [k |-> "tag", t |-> t, q |-> <<>>]
News == {[Base EXCEPT !.k = "new", !.ls = ls, !.fb = fb] : fb \in {"", "fr"}, ls \in {<<>>} \cup UNION {[1..n -> 1..3] : n \in 1..MaxNew}}
Edits == {[Base EXCEPT !.k = "edit", !.p = p, !.n = n] : p \in 1..3, n \in {1, 6}}
Hums(c) == {[Base EXCEPT !.k = "hum", !.c = c, !.req = [i \in DOMAIN ts |-> Request(ts[i])]] : ts \in {<<>>, <<"de">>, <<"fr">>, <<"en">>, <<"ja", "fr">>, <<"sv">>}}
Exact(langs, req) ==
  LET hits == {i \in DOMAIN req : req[i].t \in {langs[j] : j \in DOMAIN langs}}
  IN IF hits = {} THEN [l |-> "", ok |-> FALSE] ELSE [l |-> req[CHOOSE i \in hits : \A j \in hits : i <= j].t, ok |-> TRUE]
AnsFor(s, x) == IF x.k = "hum" /\ x.c \in DOMAIN s.colls THEN Exact(Langs(s.colls[x.c], s.fbs[x.c]), x.req) ELSE [l |-> "", ok |-> FALSE]
Init == start \in Pools /\ st = Start(start) /\ steps = <<>> /\ res = <<>>
Next == /\ Len(steps) < MaxSteps
        /\ \E x \in (IF Len(steps) = 0 THEN News ELSE {y \in News : Len(y.ls) <= 1} \cup Edits \cup (IF st.colls = <<>> THEN {} ELSE Hums(Len(st.colls)))) :
              LET d == Do(st, x, AnsFor(st, x)) IN st' = d.st /\ steps' = Append(steps, x) /\ res' = Append(res, d.res)
        /\ UNCHANGED start
\* collections and humanizers, once made, stay as they are
Kept == [][/\ \A i \in DOMAIN st.colls : st'.colls[i] = st.colls[i]
           /\ \A i \in DOMAIN st.hums : st'.hums[i] = st.hums[i]]_vars
\* a humanizer speaks one language of its collection, or English
OneLanguage == \A i \in DOMAIN st.hums : st.hums[i] = English \/ \E j \in DOMAIN st.colls : \E m \in DOMAIN st.colls[j] : st.hums[i] = st.colls[j][m]
AlwaysAnswers == \A i \in DOMAIN st.hums : \A f \in 1..Formats : Say(st.hums[i], st.subs[i], [Base EXCEPT !.what = "format", !.n = f]) # ""
\* at the end, all are asked everything
Questions(h) == <<[Base EXCEPT !.k = "ask", !.h = h, !.what = "lang"], [Base EXCEPT !.k = "ask", !.h = h, !.what = "today"],
                  [Base EXCEPT !.k = "ask", !.h = h, !.what = "bytes", !.n = 1], [Base EXCEPT !.k = "ask", !.h = h, !.what = "bytes", !.n = 5]>>
                \o [f \in 1..Formats |-> [Base EXCEPT !.k = "ask", !.h = h, !.what = "format", !.n = f]]
AllQuestions == FlattenSeq([h \in DOMAIN st.hums |-> Questions(h)])
CaseOut == (Len(steps) = MaxSteps /\ st.hums # <<>>) =>
  LET qs == AllQuestions
  IN Emit([op |-> "hum.story", in |-> [pool |-> start, steps |-> steps \o qs],
           exp |-> <<[res |-> res \o [i \in DOMAIN qs |-> Do(st, qs[i], [l |-> "", ok |-> FALSE]).res]]>>])
=============================================================================
