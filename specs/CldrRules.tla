----------------------------- MODULE CldrRules ------------------------------
(* CLDR plural rules: the grammar and the meaning of conditions (TR35 part 3) *)
(* and of sets of rules (catalog/cldrplural).                                 *)
EXTENDS CldrOperands

(* ---- tokens ---- *)
\* [t |-> type, d |-> digits, g |-> glued to the token before, lax |-> unusual writing]
Letter(c) == c \in 65..90 \/ c \in 97..122
OperandNames == {"n", "i", "v", "w", "f", "t", "c", "e"}
Words == OperandNames \cup {"and", "or", "mod", "is", "not", "in", "within"}
WordOf == [w \in {Codes(x) : x \in Words} |-> CHOOSE x \in Words : Codes(x) = w]
Finish(st) ==
  LET tok(t, d, lax) == Append(st.toks, [t |-> t, d |-> d, g |-> st.g, lax |-> lax])
      low == LowerAll(st.cur)
  IN CASE st.k = "none" -> st.toks
       [] st.k = "num" -> tok("num", Nat10OfCodes(st.cur), Len(st.cur) > 1 /\ st.cur[1] = 48)
       [] st.k = "word" -> tok(IF low \in DOMAIN WordOf THEN WordOf[low] ELSE "bad", <<>>, low # st.cur)
       [] st.k = "dots" -> tok(IF Len(st.cur) = 2 THEN ".." ELSE IF Len(st.cur) \in {1, 3} THEN "ellipsis" ELSE "bad", <<>>, FALSE)
       [] st.k = "not" -> tok("bad", <<>>, FALSE)
LexStep(st, ch) ==
  LET kind == IF Letter(ch) THEN "word" ELSE IF IsDigit(ch) THEN "num" ELSE IF ch = 46 THEN "dots" ELSE "other"
      fresh == Finish(st)
      glued == st.k # "none" \/ st.g
      one(t) == [toks |-> Append(fresh, [t |-> t, d |-> <<>>, g |-> glued, lax |-> FALSE]), k |-> "none", cur |-> <<>>, g |-> TRUE]
  IN IF st.k = kind THEN [st EXCEPT !.cur = Append(@, ch)]
     ELSE IF kind # "other" THEN [toks |-> fresh, k |-> kind, cur |-> <<ch>>, g |-> glued]
     ELSE IF st.k = "not" /\ ch = 61 THEN [toks |-> Append(st.toks, [t |-> "!=", d |-> <<>>, g |-> st.g, lax |-> FALSE]), k |-> "none", cur |-> <<>>, g |-> TRUE]
     ELSE IF IsSpace(ch) THEN [toks |-> fresh, k |-> "none", cur |-> <<>>, g |-> FALSE]
     ELSE IF ch = 33 THEN [toks |-> fresh, k |-> "not", cur |-> <<ch>>, g |-> glued]
     ELSE IF ch = COMMA THEN [one(",") EXCEPT !.g = FALSE]
     ELSE one(CASE ch = 61 -> "=" [] ch = 37 -> "%" [] ch = 8230 -> "ellipsis" [] OTHER -> "bad")
Lex(s) == Finish(FoldLeft(LexStep, [toks |-> <<>>, k |-> "none", cur |-> <<>>, g |-> FALSE], s))

(* ---- grammar ---- *)
NoParse == [ok |-> FALSE]
Parsed(n, p) == [ok |-> TRUE, n |-> n, p |-> p]
At(t, p) == IF p <= Len(t) THEN t[p].t ELSE "end"
Join(k, x, y) == [k |-> k, x |-> x, y |-> y]
Rel(o, m, neg, within, list) == [k |-> "rel", o |-> o, m |-> m, neg |-> neg, within |-> within, list |-> list]
RECURSIVE PList(_, _, _), PAnd(_, _), POr(_, _)
\* ranges and values from p on, at least one
PList(t, p, acc) ==
  IF At(t, p) # "num" THEN IF acc = <<>> THEN NoParse ELSE Parsed(acc, p)
  ELSE IF At(t, p + 1) = ".." THEN IF At(t, p + 2) = "num" THEN PList(t, p + 3, Append(acc, <<t[p].d, t[p + 2].d>>)) ELSE NoParse
  ELSE PList(t, p + 1, Append(acc, <<t[p].d, t[p].d>>))
PRel(t, p) ==
  LET mod == At(t, p + 1) \in {"mod", "%"}
      q == IF mod THEN p + 3 ELSE p + 1
      m == IF mod THEN t[p + 2].d ELSE <<>>
      neg1 == At(t, q) = "not" /\ At(t, q + 1) \in {"in", "within"}
      r == IF neg1 THEN q + 1 ELSE q
      isnot == At(t, r) = "is" /\ At(t, r + 1) = "not"
      l == PList(t, IF isnot THEN r + 2 ELSE r + 1, <<>>)
  IN IF At(t, p) \notin OperandNames \/ (mod /\ At(t, p + 2) # "num") \/ At(t, r) \notin {"=", "!=", "is", "in", "within"} \/ ~l.ok THEN NoParse
     ELSE Parsed(Rel(t[p].t, m, neg1 \/ isnot \/ At(t, r) = "!=", At(t, r) = "within", l.n), l.p)
PAnd(t, p) ==
  LET x == PRel(t, p)
      y == PAnd(t, x.p + 1)
  IN IF ~x.ok \/ At(t, x.p) # "and" THEN x ELSE IF ~y.ok THEN y ELSE Parsed(Join("and", x.n, y.n), y.p)
POr(t, p) ==
  LET x == PAnd(t, p)
      y == POr(t, x.p + 1)
  IN IF ~x.ok \/ At(t, x.p) # "or" THEN x ELSE IF ~y.ok THEN y ELSE Parsed(Join("or", x.n, y.n), y.p)

\* samples of the usual form
SampleValue(s) == LET d == DecimalOf(s)
                  IN d.ok /\ IsDigit(s[1]) /\ IsDigit(s[Len(s)]) /\ (Len(d.ip) > 1 => d.ip[1] # 0) /\ d.exk \in {0, 99}
                     /\ (d.dot => d.fp # <<>>) /\ (d.exk = 99 => (d.fp # <<>> \/ d.ip # <<0>>) /\ AllDigits(From(s, IndexOf(s, 99) + 1)))
SampleRange(s) ==
  LET k == IndexOf(s, 126)
      sa == SubSeq(s, 1, k - 1)
      sb == From(s, k + 1)
      a == DecimalOf(sa)
      b == DecimalOf(sb)
      x == Norm10(a.ip \o a.fp)
      y == Norm10(b.ip \o b.fp)
  IN k > 1 /\ k < Len(s) /\ SampleValue(sa) /\ SampleValue(sb) /\ a.exk = 0 /\ b.exk = 0 /\ Len(a.fp) = Len(b.fp) /\ Le10(x, y) /\ Lt10(Sub10(y, x), Of10(500))
Samples(s) ==
  LET parts == NonEmpty(SplitBy(s, LAMBDA ch : IsSpace(ch) \/ ch = COMMA))
  IN \A i \in 1..Len(parts) : \/ parts[i] \in {Codes("@integer"), Codes("@decimal"), Codes("..."), <<8230>>}
                              \/ SampleValue(parts[i]) \/ SampleRange(parts[i])

\* the ranges of all relations, and their moduli
RECURSIVE Rels(_)
Rels(n) == IF n.k = "rel" THEN {n} ELSE Rels(n.x) \cup Rels(n.y)

\* zones: ok, loose (may be rejected), bad (must be rejected); n.k = "always" is the empty condition
ParseRule(s) ==
  LET at == IndexOf(s, 64)
      cond == IF at = 0 THEN s ELSE SubSeq(s, 1, at - 1)
      sampled == at = 0 \/ (Samples(From(s, at)) /\ (at = 1 \/ IsSpace(s[at - 1]) \/ s[at - 1] = COMMA))
      all == Lex(cond)
      t == SelectSeq(all, LAMBDA x : x.t \notin {",", "ellipsis"})
      e == POr(t, 1)
      \* written as in the CLDR: one white space or more around words, signs and lists, single commas in lists
      tight(i) == all[i].t = ".." \/ (i > 1 /\ all[i - 1].t = "..")
      usual == \A i \in 1..Len(all) :
                  /\ ~all[i].lax /\ all[i].t \notin {"ellipsis", "is", "not", "in", "within"}
                  /\ IF all[i].t = "," THEN i > 1 /\ i < Len(all) /\ all[i - 1].t = "num" /\ all[i + 1].t = "num" ELSE (all[i].g = tight(i))
                  /\ (all[i].t = "num" /\ i > 1 => all[i - 1].t # "num")
                  /\ (all[i].t = ".." => i > 1 /\ i < Len(all) /\ all[i + 1].t = "num" /\ all[i + 1].d # Zero10 /\ Lt10(all[i - 1].d, all[i + 1].d))
                  /\ (all[i].t = "num" => Le10(all[i].d, MaxInt64))
  IN IF t = <<>> THEN [z |-> IF sampled /\ at # 0 THEN "ok" ELSE "loose", n |-> [k |-> "always"]]
     ELSE IF ~e.ok \/ e.p # Len(t) + 1 THEN [z |-> "bad"]
     ELSE IF \E r \in Rels(e.n) : r.m = Zero10 THEN [z |-> "bad"]
     ELSE [z |-> IF usual /\ sampled THEN "ok" ELSE "loose", n |-> e.n]

(* ---- meaning ---- *)
OperandOf(o, name) ==
  LET whole(d) == [ip |-> d, fp |-> <<>>]
  IN CASE name = "n" -> o.n [] name = "i" -> whole(o.i) [] name = "v" -> whole(Of10(o.v)) [] name = "w" -> whole(Of10(o.w))
       [] name = "f" -> whole(o.f) [] name = "t" -> whole(o.t) [] OTHER -> whole(Of10(o.c))
InList(x, list, within) ==
  \E k \in 1..Len(list) :
     LET a == list[k][1]
         b == list[k][2]
     IN /\ Le10(a, x.ip) /\ Le10(x.ip, b)
        /\ x.fp = <<>> \/ (within /\ x.ip # b)
RECURSIVE Holds(_, _)
Holds(n, o) ==
  CASE n.k = "always" -> TRUE
    [] n.k = "and" -> Holds(n.x, o) /\ Holds(n.y, o)
    [] n.k = "or" -> Holds(n.x, o) \/ Holds(n.y, o)
    [] n.k = "rel" -> LET v == OperandOf(o, n.o)
                          x == IF n.m = <<>> THEN v ELSE [v EXCEPT !.ip = Mod10(@, n.m)]
                      IN InList(x, n.list, n.within) # n.neg

(* ---- sets of rules ---- *)
CategoryNames == <<"zero", "one", "two", "few", "many", "other">>
OTHERCAT == 5                                              \* categories are numbered from 0
\* rules: a sequence of [c |-> category, n |-> condition]
CatsOf(rules) == LET cs == {rules[i].c : i \in 1..Len(rules)} \cup {OTHERCAT} IN SetToSortSeq(cs, <)
CatsOfNumber(rules, o) == LET cs == {rules[i].c : i \in {j \in 1..Len(rules) : rules[j].c # OTHERCAT /\ Holds(rules[j].n, o)}}
                          IN IF cs = {} THEN {OTHERCAT} ELSE cs
\* numbers with more digits than a float represents are not judged
Exact(o) == Digits(o.n) <= 15 /\ Len(o.f) <= 15
ErrCat == [e |-> TRUE]
CatOutcomes(rules, v) == LET x == Operands(v)
                         IN UNION {{[v |-> c] : c \in CatsOfNumber(rules, o)} : o \in x.ops} \cup IF x.err THEN {ErrCat} ELSE {}
CatOK(rules, v, got) ==
  LET x == Operands(v)
  IN \/ \E o \in x.ops : ~Exact(o) /\ "v" \in DOMAIN got /\ \E i \in 1..Len(CatsOf(rules)) : CatsOf(rules)[i] = got.v
     \/ got \in CatOutcomes(rules, v)
=============================================================================
