----------------------------- MODULE MC_Lookup ------------------------------
(* Exhaustive exploration of lookups; one case per configuration (a bundle   *)
(* and all requests of the scenario). Scenario selects the dimension that is *)
(* enumerated; Size its bounds.                                              *)
EXTENDS Lookup, Emit

CONSTANTS Scenario, Size

Tag(t) == [k |-> "tag", t |-> t]
RTag(t) == [k |-> "tag", t |-> t, q |-> <<>>]
Loader(d) == [k |-> "loader", s |-> d, ls |-> <<>>]
OptL(ls) == [k |-> "lang", req |-> FALSE, ls |-> [i \in 1..Len(ls) |-> Tag(ls[i])]]
Src(l) == IF l = "" THEN <<>> ELSE <<[k |-> "src", ls |-> <<Tag(l)>>]>>
Fb(l) == IF l = "" THEN <<>> ELSE <<[k |-> "fb", ls |-> <<Tag(l)>>]>>
OptIf(c, o) == IF c THEN <<o>> ELSE <<>>
Cb == <<[k |-> "cb"]>>
Printer(s) == <<[k |-> "printer", s |-> s]>>
NumI(i) == [k |-> "int", i |-> i]
Bad == [k |-> "bad", i |-> 0]
Strv(s) == [k |-> "str", s |-> s]

Acc(d, n, c, f) == [d |-> d, n |-> n, c |-> c, f |-> f]
BaseStep == [k |-> "get", req |-> <<>>, hasld |-> FALSE, ld |-> "", key |-> FALSE, a |-> Acc(FALSE, FALSE, FALSE, FALSE),
             d |-> "", c |-> "", s |-> "m", p |-> "ms", n |-> NumI(1), v |-> <<>>, hasd |-> FALSE]

Cfg(opts, cats, steps) == [opts |-> opts, cats |-> cats, matcher |-> "exact", steps |-> steps]

----------------------------------------------------------------------------
(* "chain": every combination of what the selected, fallback and source      *)
(* language can have for one message.                                        *)
Levels == {"nolang", "nodom", "noctx", "nomsg", "noform", "empty", "ok"}
Forms(kind, l, t1, t2) == IF kind = "json" THEN <<[i |-> 5, t |-> t2], [i |-> 1, t |-> t1]>>
                          ELSE <<[i |-> 0, t |-> t1], [i |-> 1, t |-> t2]>>
ChainCats(kind, l, level) ==
  LET name(m) == IF kind = "json" THEN m \o "_c" ELSE m
      other == [c |-> "c", m |-> name("zz"), f |-> Forms(kind, l, "zz1", "zz2")]
      elsewhere == [c |-> "", m |-> "m", f |-> Forms(kind, l, "wrong context", "wrong context")]
      msg(f) == [c |-> "c", m |-> name("m"), f |-> f]
      rule == IF l = "fr" THEN "gt1" ELSE "ne1"
      cat(d, ms) == [l |-> l, d |-> d, st |-> "ok", kind |-> kind, rule |-> rule, msgs |-> ms]
      wrong == cat("e", <<msg(Forms(kind, l, "wrong domain", "wrong domain"))>>)
  IN CASE level = "nolang" -> <<>>
       [] level = "nodom"  -> <<wrong>>
       [] level = "noctx"  -> <<wrong, cat("d", <<elsewhere>>)>>
       [] level = "nomsg"  -> <<wrong, cat("d", <<elsewhere, other>>)>>
       [] level = "noform" -> <<wrong, cat("d", <<elsewhere, other, [msg(<<Forms(kind, l, l \o "1", l \o "2")[1]>>) EXCEPT !.c = "c"]>>)>>
       [] level = "empty"  -> <<wrong, cat("d", <<elsewhere, other, msg(Forms(kind, l, l \o "1", ""))>>)>>
       [] level = "ok"     -> <<wrong, cat("d", <<elsewhere, other, msg(Forms(kind, l, l \o "1", l \o "2"))>>)>>

Acc4 == { Acc(TRUE, n, TRUE, f) : n \in BOOLEAN, f \in BOOLEAN }
ChainSteps ==
  LET one(req, k, n, p, pl) == [BaseStep EXCEPT !.k = k, !.req = <<RTag(req)>>, !.d = "d", !.c = "c", !.p = IF pl THEN p ELSE "", !.n = n,
                                                 !.hasd = TRUE, !.a = Acc(TRUE, pl, TRUE, TRUE), !.v = <<NumI(7)>>]
      reqs == <<"de", "fr", "en", "sv">>
      variants(req) == <<one(req, "loc", NumI(1), "", FALSE), one(req, "loc", NumI(1), "ms", TRUE), one(req, "loc", NumI(0), "ms", TRUE),
                         one(req, "loc", NumI(2), "ms", TRUE), one(req, "get", NumI(1), "", FALSE), one(req, "get", NumI(2), "ms", TRUE),
                         one(req, "get", NumI(2), "", TRUE), one(req, "get", Bad, "ms", TRUE)>>
  IN variants("de") \o variants("fr") \o variants("en") \o variants("sv")

ChainCfgs ==
  { Cfg(<<Loader("d"), Loader("e")>> \o Src(src) \o Fb(fb) \o <<OptL(<<"de", "fr">>)>> \o Printer("tag") \o (IF cb THEN Cb ELSE <<>>),
        ChainCats(k1, "de", l1) \o ChainCats(k2, "fr", l2) \o (IF src = "de" THEN <<>> ELSE <<>>), ChainSteps)
    : l1 \in Levels, l2 \in Levels, src \in {"", "en", "ja"}, fb \in {"", "fr", "de", "en"}, cb \in (IF Size = "big" THEN BOOLEAN ELSE {TRUE}),
      k1 \in {"po", "json"}, k2 \in (IF Size = "big" THEN {"po", "mo", "json"} ELSE {"mo"}) }

----------------------------------------------------------------------------
(* "access": every accessor on catalogs with colliding domains and contexts.  *)
AllAcc == { Acc(d, n, c, f) : d \in BOOLEAN, n \in BOOLEAN, c \in BOOLEAN, f \in BOOLEAN }
Cells == {"", "a", "b"} \X {"", "c"}
AccessMsgs(kind, S, d) ==
  LET of(c) == IF <<d, c>> \in S
               THEN LET nm(m) == IF kind = "json" /\ c # "" THEN m \o "_" \o c ELSE m
                        t(m, i) == d \o "/" \o c \o "/" \o m \o i
                        f(m) == IF kind = "json" THEN <<[i |-> 5, t |-> t(m, "n")], [i |-> 1, t |-> t(m, "1")]>>
                                ELSE <<[i |-> 0, t |-> t(m, "1")], [i |-> 1, t |-> t(m, "n")]>>
                    IN <<[c |-> c, m |-> nm("m"), f |-> f("m")], [c |-> c, m |-> nm("c"), f |-> f("c")]>>
               ELSE <<>>
  IN of("") \o of("c")
\* A catalog exists for a domain iff one of its cells is filled.
AccessCats(kind, S) == SelectSeq([i \in 1..3 |-> LET d == <<"", "a", "b">>[i] IN
                          [l |-> "de", d |-> d, st |-> "ok", kind |-> kind, rule |-> "ne1", msgs |-> AccessMsgs(kind, S, d)]],
                          LAMBDA x : x.msgs # <<>>)
AccSeq == SetToSeq(AllAcc)
AccessStep(i, key, ld, n) ==
  [BaseStep EXCEPT !.a = AccSeq[i], !.key = key, !.hasld = ld # "-", !.ld = IF ld = "-" THEN "" ELSE ld,
                   !.d = "b", !.c = "c", !.req = <<RTag("de")>>, !.n = NumI(n),
                   !.v = IF AccSeq[i].f THEN <<NumI(n), Strv("x")>> ELSE <<>>]
LocStep(hasd, c, p, ld, n) == [BaseStep EXCEPT !.k = "loc", !.hasd = hasd, !.d = "a", !.c = c, !.p = p, !.hasld = ld # "-",
                               !.ld = IF ld = "-" THEN "" ELSE ld, !.req = <<RTag("de")>>, !.n = NumI(n), !.v = <<NumI(n)>>]
AccessSteps(lds, ns) ==
  LET accs == FlattenSeq([j \in 1..Len(lds) |-> FlattenSeq([k \in 1..Len(ns) |->
                 [i \in 1..16 |-> AccessStep(i, FALSE, lds[j], ns[k])] \o [i \in 1..16 |-> AccessStep(i, TRUE, lds[j], ns[k])]])])
      locs == FlattenSeq([j \in 1..Len(lds) |-> <<LocStep(TRUE, "", "ms", lds[j], 2), LocStep(FALSE, "c", "ms", lds[j], 1),
                                                  LocStep(TRUE, "c", "", lds[j], 2), LocStep(FALSE, "", "", lds[j], 1)>>])
      info == [j \in 1..Len(lds) |-> [BaseStep EXCEPT !.k = "info", !.req = <<RTag("de")>>, !.hasld = lds[j] # "-", !.ld = IF lds[j] = "-" THEN "" ELSE lds[j]]]
  IN accs \o locs \o info
AccessCfgs ==
  { Cfg(<<Loader("b"), Loader(""), Loader("a")>> \o Src("en") \o (IF dd = "-" THEN <<>> ELSE <<[k |-> "dom", s |-> dd]>>)
          \o <<OptL(<<"de">>)>> \o Printer("tag") \o Cb,
        AccessCats(kind, S), AccessSteps(<<"-", "a", "">>, <<1, 2>>))
    : S \in SUBSET Cells, dd \in {"-", "a", "b"}, kind \in (IF Size = "big" THEN {"po", "mo", "json"} ELSE {"po", "json"}) }

----------------------------------------------------------------------------
(* "errors": localizing errors and message values.                           *)
ErrCells == {"", "d"} \X {"", "errors", "c"}
ErrCats(kind, S) ==
  LET msgs(d) == FlattenSeq([j \in 1..3 |-> LET c == <<"", "errors", "c">>[j] IN
                   IF <<d, c>> \notin S THEN <<>>
                   ELSE LET nm == IF kind = "json" /\ c # "" THEN "m_" \o c ELSE "m" IN
                        <<[c |-> c, m |-> nm, f |-> IF kind = "json" THEN <<[i |-> 5, t |-> d \o "/" \o c \o "/n"], [i |-> 1, t |-> d \o "/" \o c \o "/1"]>>
                                                  ELSE <<[i |-> 0, t |-> d \o "/" \o c \o "/1"], [i |-> 1, t |-> d \o "/" \o c \o "/n"]>>]>>])
  IN SelectSeq([i \in 1..2 |-> [l |-> "de", d |-> <<"", "d">>[i], st |-> "ok", kind |-> kind, rule |-> "ne1", msgs |-> msgs(<<"", "d">>[i])]],
               LAMBDA x : x.msgs # <<>>)
ErrSteps ==
  LET step(k, req, c, p, hasd, d, ld) == [BaseStep EXCEPT !.k = k, !.req = <<RTag(req)>>, !.c = c, !.p = p, !.hasd = hasd, !.d = d,
                                            !.hasld = ld # "-", !.ld = IF ld = "-" THEN "" ELSE ld, !.n = NumI(2), !.v = <<NumI(3)>>]
      for(req) == <<step("err", req, "c", "", FALSE, "", "-"), step("errw", req, "", "", FALSE, "", "d"), step("errnil", req, "", "", FALSE, "", "-"),
                    step("nil", req, "", "", FALSE, "", "-"),
                    step("errm", req, "", "", FALSE, "", "-"), step("errm", req, "c", "ms", FALSE, "", "d"),
                    step("errm", req, "errors", "ms", TRUE, "d", "-"), step("errm", req, "c", "", TRUE, "", "d"),
                    step("loc", req, "c", "ms", TRUE, "d", "-"), step("loc", req, "", "", FALSE, "", "-")>>
  IN for("de") \o for("sv") \o for("en")
ErrCfgs ==
  { Cfg(<<Loader("d"), Loader("")>> \o Src(src) \o Fb(fb) \o (IF dd = "-" THEN <<>> ELSE <<[k |-> "dom", s |-> dd]>>)
          \o (IF ec = "-" THEN <<>> ELSE <<[k |-> "ectx", s |-> ec]>>) \o <<OptL(<<"de">>)>> \o Printer("tag") \o Cb,
        ErrCats(kind, S), ErrSteps)
    : S \in SUBSET ErrCells, dd \in {"-", "d"}, ec \in {"-", "", "c"}, src \in (IF Size = "big" THEN {"", "en", "de"} ELSE {"en"}),
      fb \in (IF Size = "big" THEN {"", "en"} ELSE {""}), kind \in (IF Size = "big" THEN {"po", "mo", "json"} ELSE {"po"}) }

----------------------------------------------------------------------------
(* "format": who formats what.                                               *)
Texts == <<"plain % text %d", "%d", "%d items", "100%% of %s", "%[2]d/%[1]d", "%s %v %!">>
Args(t) == CASE t = "%d" -> <<NumI(1234567)>> [] t = "%d items" -> <<NumI(-12345)>> [] t = "100%% of %s" -> <<Strv("it % d")>>
             [] t = "%[2]d/%[1]d" -> <<NumI(1000), NumI(999)>> [] OTHER -> <<>>
FormatCats(have) ==
  LET cat(l) == [l |-> l, d |-> "", st |-> "ok", kind |-> "po", rule |-> "ne1",
                 msgs |-> [i \in 1..Len(Texts) |-> [c |-> "", m |-> "m" \o ToString(i), f |-> <<[i |-> 0, t |-> Texts[i]], [i |-> 1, t |-> "%d Dinge"]>>]]]
  IN [i \in 1..Len(have) |-> cat(have[i])]
FormatSteps(req) ==
  LET tr(i, f) == [BaseStep EXCEPT !.req = <<RTag(req)>>, !.s = "m" \o ToString(i), !.a = Acc(FALSE, FALSE, FALSE, f), !.v = IF f THEN Args(Texts[i]) ELSE <<>>]
      src(i, f, n) == [BaseStep EXCEPT !.req = <<RTag(req)>>, !.s = Texts[i], !.p = "%d items", !.a = Acc(FALSE, n, FALSE, f), !.n = NumI(2),
                        !.v = IF ~f THEN <<>> ELSE IF n THEN <<NumI(54321)>> ELSE Args(Texts[i])]
      loc(i) == [BaseStep EXCEPT !.k = "loc", !.req = <<RTag(req)>>, !.s = "m" \o ToString(i), !.p = "", !.v = Args(Texts[i])]
      pl(i) == [BaseStep EXCEPT !.req = <<RTag(req)>>, !.s = "m" \o ToString(i), !.n = NumI(5), !.v = <<NumI(1000000)>>, !.a = Acc(FALSE, TRUE, FALSE, TRUE)]
      print(i) == [BaseStep EXCEPT !.k = "print", !.req = <<RTag(req)>>, !.s = Texts[i], !.v = Args(Texts[i])]
      N == Len(Texts)
  IN [i \in 1..N |-> tr(i, FALSE)] \o [i \in 1..N |-> tr(i, TRUE)] \o [i \in 1..N |-> src(i, FALSE, FALSE)] \o [i \in 1..N |-> src(i, TRUE, FALSE)]
     \o [i \in 1..N |-> src(i, TRUE, TRUE)] \o [i \in 1..N |-> src(i, FALSE, TRUE)] \o [i \in 1..N |-> loc(i)] \o [i \in 1..N |-> pl(i)] \o [i \in 1..N |-> print(i)]
FormatCfgs ==
  { Cfg(<<Loader("")>> \o Src(src) \o Fb(fb) \o <<OptL(ord)>> \o (IF pr = "" THEN <<>> ELSE Printer(pr)) \o Cb,
        FormatCats(SetToSeq(have)), FormatSteps("de") \o FormatSteps("fr") \o FormatSteps("sv"))
    : src \in {"", "en", "de", "fr"}, fb \in {"", "fr", "en"}, pr \in {"", "default", "tag", "func"}, have \in {{"de"}, {"fr"}, {"de", "fr"}, {"de", "fr", "en"}},
      ord \in {<<"de", "fr">>, <<"fr", "de">>} }

----------------------------------------------------------------------------
(* "negotiate": which language a localizer works in.                         *)
Reqs == { <<RTag(t)>> : t \in {"de", "fr", "en", "sv"} }
        \cup { <<[k |-> "al", t |-> "", q |-> q]>> : q \in { <<[t |-> "fr", w |-> 3], [t |-> "de", w |-> 8]>>, <<[t |-> "sv", w |-> 10], [t |-> "en", w |-> 5]>>,
                   <<[t |-> "de", w |-> 0], [t |-> "fr", w |-> 1]>>, <<[t |-> "fr", w |-> 5], [t |-> "de", w |-> 5]>>, <<[t |-> "de", w |-> 0]>> } }
        \cup { <<>>, <<[k |-> "bad", t |-> "de;q=x", q |-> <<>>]>>, <<[k |-> "bad", t |-> "fr, d!e", q |-> <<>>]>>, <<[k |-> "type", t |-> "", q |-> <<>>]>> }
Pairs == { x \o y : x \in Reqs, y \in Reqs }
NegSteps(rs) == FlattenSeq([i \in 1..Cardinality(rs) |-> LET r == SetToSeq(rs)[i] IN
                  <<[BaseStep EXCEPT !.k = "info", !.req = r]>>]) 
SuppSteps == [i \in 1..4 |-> [BaseStep EXCEPT !.k = "supp", !.req = <<RTag(<<"de", "fr", "en", "sv">>[i])>>]]
NegCfgs ==
  { [Cfg(<<Loader("d")>> \o Src(src) \o Fb(fb) \o <<OptL(ord)>>, [i \in 1..Len(SetToSeq(have)) |-> [l |-> SetToSeq(have)[i], d |-> "d", st |-> "ok", kind |-> "po", rule |-> "ne1", msgs |-> <<>>]],
        NegSteps(Pairs) \o SuppSteps) EXCEPT !.matcher = m]
    : src \in {"", "en", "de"}, fb \in {"", "fr", "en"}, ord \in {<<>>, <<"de">>, <<"de", "fr">>, <<"fr", "de">>, <<"en", "de", "fr">>},
      have \in SUBSET {"de", "fr"}, m \in {"exact", "low", "no"} }

----------------------------------------------------------------------------
Cfgs == CASE Scenario = "chain" -> ChainCfgs [] Scenario = "access" -> AccessCfgs [] Scenario = "errors" -> ErrCfgs
          [] Scenario = "format" -> FormatCfgs [] Scenario = "negotiate" -> NegCfgs

Init == cfg \in Cfgs /\ b = InitBuilder /\ LookupInit
Next == SessionNext

\* The order in which domains are loaded does not matter here: nothing is reported meanwhile
\* except missing catalogs, so one order is enough (MC_Bundle explores all of them).
OneOrder == b.ph = "load" => \A d \in b.got : TRUE

EmitFinal == SessionOver => Emit([id |-> 0, op |-> "session", in |-> cfg, exp |-> <<SessionOutcome>>])
=============================================================================
