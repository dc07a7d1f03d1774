---------------------------- MODULE JsonCatalog -----------------------------
(* JSON catalogs: which documents are catalogs, what messages they hold, how  *)
(* they are looked up and encoded.                                            *)
(*                                                                            *)
(* A document is a JSON value [k |-> "null"/"num"/"bool"/"arr"/"str"/"obj",   *)
(* s |-> text of a "str", m |-> fields of an "obj", each [n |-> name, v]],    *)
(* in well-formed text unless fault # "".                                     *)
(* A message is [comment, ctx, tr], tr: sequence of [c |-> category,          *)
(* s |-> text] ordered by category.                                           *)
EXTENDS CldrTable

(* ---- messages ---- *)
Other == 5
CatIndex(name) == LET i == SelectInSeq(CategoryNames, LAMBDA x : Codes(x) = name) IN i - 1      \* -1: no category
IndexOfCat(tr, c) == SelectInSeq(tr, LAMBDA x : x.c = c)
HasCat(tr, c) == IndexOfCat(tr, c) # 0
TextOfCat(tr, c) == LET i == IndexOfCat(tr, c) IN IF i = 0 THEN <<>> ELSE tr[i].s
Without(tr, c) == SelectSeq(tr, LAMBDA x : x.c # c)
PutCat(tr, c, s) == SelectSeq(tr, LAMBDA x : x.c < c) \o <<[c |-> c, s |-> s]>> \o SelectSeq(tr, LAMBDA x : x.c > c)
Single(tr) == Len(tr) = 1 /\ tr[1].c = Other
\* exactly the categories of the language; a message with only 'other' has no plural and stays as it is
Normalise(cats, tr) == IF Single(tr) THEN tr ELSE [i \in 1..Len(cats) |-> [c |-> cats[i], s |-> TextOfCat(tr, cats[i])]]
NormMsg(cats, m) == [m EXCEPT !.tr = Normalise(cats, @)]
UNDERSCORE == <<95>>
ValidKey(key, m) == key # <<>> /\ (m.ctx # <<>> => HasSuffix(key, UNDERSCORE \o m.ctx))
ValidMsg(key, m) == ValidKey(key, m) /\ HasCat(m.tr, Other)

(* ---- reading ---- *)
Bad == [ok |-> FALSE]
Fold(name) == LowerAll(name)
\* the fields of that name; several are only possible if they differ in case
FieldsOf(v, name) == SelectSeq(v.m, LAMBDA f : Fold(f.n) = Codes(name))
Ambiguous(v) == \E i, j \in 1..Len(v.m) : i # j /\ Fold(v.m[i].n) = Fold(v.m[j].n)
ReadMsg(v) ==
  CASE v.k = "str" -> [ok |-> TRUE, m |-> [comment |-> <<>>, ctx |-> <<>>, tr |-> <<[c |-> Other, s |-> v.s]>>]]
    [] v.k = "obj" ->
         IF \E i \in 1..Len(v.m) : v.m[i].v.k \notin {"str", "null"} THEN Bad
         ELSE LET one(name) == LET f == FieldsOf(v, name) IN IF f = <<>> THEN <<>> ELSE f[Len(f)].v.s
                  has == SelectSeq(<<0, 1, 2, 3, 4, 5>>, LAMBDA c : FieldsOf(v, CategoryNames[c + 1]) # <<>>)
              IN [ok |-> TRUE, m |-> [comment |-> one("comment"), ctx |-> one("context"),
                                      tr |-> [i \in 1..Len(has) |-> [c |-> has[i], s |-> one(CategoryNames[has[i] + 1])]]]]
    [] OTHER -> Bad
\* A text that is null may be rejected or taken for an empty text.
LooseMsg(v) == v.k = "obj" /\ \E i \in 1..Len(v.m) : v.m[i].v.k = "null"
\* Which of the fields that differ only in case counts is not specified.
Readings(v) == IF v.k # "obj" \/ ~Ambiguous(v) THEN {v}
              ELSE {[v EXCEPT !.m = SetToSeq({v.m[i] : i \in S})] :
                      S \in {T \in SUBSET (1..Len(v.m)) :
                               /\ \A i, j \in T : i # j => Fold(v.m[i].n) # Fold(v.m[j].n)
                               /\ \A i \in 1..Len(v.m) : \E j \in T : Fold(v.m[i].n) = Fold(v.m[j].n)}}
\* of fields with equal names the last counts
LastFields(d) == SelectSeq([i \in 1..Len(d.m) |-> [f |-> d.m[i], last |-> \A j \in (i + 1)..Len(d.m) : d.m[j].n # d.m[i].n]], LAMBDA x : x.last)
\* catalogs as sequences of [key, m]; the set of readings of a document
RECURSIVE Products(_)
Products(sets) == IF sets = <<>> THEN {<<>>} ELSE LET rest == Products(Tail(sets)) IN {<<x>> \o r : x \in Head(sets), r \in rest}
Read(cats, d, fault) ==
  IF fault # "" \/ d.k # "obj" \/ d.m = <<>> THEN [err |-> TRUE, cats |-> {}]
  ELSE LET fs == LastFields(d)
           \* the readings of one field
           msgs(f) == {[key |-> f.n, r |-> ReadMsg(v)] : v \in Readings(f.v)}
           all == {p \in Products([i \in 1..Len(fs) |-> msgs(fs[i].f)]) : \A i \in 1..Len(p) : p[i].r.ok /\ ValidMsg(p[i].key, p[i].r.m)}
           every == \A i \in 1..Len(fs) : \A x \in msgs(fs[i].f) : x.r.ok /\ ValidMsg(x.key, x.r.m)
           dup == Len(fs) < Len(d.m)
       IN [err |-> ~every \/ dup \/ \E i \in 1..Len(fs) : LooseMsg(fs[i].f.v),
           cats |-> {[i \in 1..Len(p) |-> [key |-> p[i].key, m |-> NormMsg(cats, p[i].r.m)]] : p \in all}]

(* ---- lookups ---- *)
NoErr == [k |-> "", l |-> "", d |-> "", c |-> <<>>, m |-> <<>>, i |-> 0]
CatsAllowed(rules, v) ==
  LET x == Operands(v)
  IN CatOutcomes(rules, v) \cup IF \E o \in x.ops : ~Exact(o) THEN {[v |-> CatsOf(rules)[i]] : i \in 1..Len(CatsOf(rules))} ELSE {}
\* lang, domain: names in errors; msgs: sequence of [key, m]; q: [c |-> context, m |-> id, pl, n]
Find(msgs, ctx, key) == SelectInSeq(msgs, LAMBDA x : x.key = key /\ x.m.ctx = ctx)
FullKey(q) == IF q.c = <<>> THEN q.m ELSE q.m \o UNDERSCORE \o q.c
AskCat(lang, domain, msgs, q, c) ==
  LET key == FullKey(q)
      i == Find(msgs, q.c, key)
      miss(k, ids, idx) == {[s |-> q.m, e |-> [k |-> k, l |-> lang, d |-> domain, c |-> q.c, m |-> id, i |-> idx]] : id \in ids}
  IN IF \A j \in 1..Len(msgs) : msgs[j].m.ctx # q.c THEN miss("ctx", {<<>>}, 0)
     ELSE IF i = 0 THEN miss("msg", {key, q.m}, 0)
     ELSE IF TextOfCat(msgs[i].m.tr, c) = <<>> THEN miss("tr", {key, q.m}, c)
     ELSE {[s |-> TextOfCat(msgs[i].m.tr, c), e |-> NoErr]}
Ask(lang, domain, rules, msgs, q) ==
  IF ~q.pl THEN AskCat(lang, domain, msgs, q, Other)
  ELSE UNION {IF "e" \in DOMAIN x THEN {[s |-> q.m, e |-> [NoErr EXCEPT !.k = "other"]]} ELSE AskCat(lang, domain, msgs, q, x.v) : x \in CatsAllowed(rules, q.n)}

(* ---- as recorded ---- *)
ShownMsg(x) == [key |-> x.key, comment |-> x.m.comment, ctx |-> x.m.ctx, tr |-> x.m.tr]
ShownMsgs(msgs) == {ShownMsg(msgs[i]) : i \in 1..Len(msgs)}
=============================================================================
