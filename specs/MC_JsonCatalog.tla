--------------------------- MODULE MC_JsonCatalog ---------------------------
(* Every small JSON document in several languages with every lookup.          *)
EXTENDS JsonCatalog, Emit
CONSTANTS MaxFields, Langs
VARIABLES lang, key, fs, more
S(s) == Codes(s)
Val(k, s) == [k |-> k, s |-> s, m |-> <<>>]
Names == <<"comment", "context", "other", "Other", "one", "MANY", "zero", "note">>
ValuesOf(name) == CASE name = "context" -> {Val("str", <<>>), Val("str", S("k")), Val("null", <<>>), Val("num", <<>>)}
                    [] name = "note" -> {Val("str", S("x")), Val("obj", <<>>)}
                    [] name = "comment" -> {Val("str", S("c")), Val("bool", <<>>)}
                    [] OTHER -> {Val("str", <<>>), Val("str", S(name)), Val("null", <<>>), Val("arr", <<>>)}
Simple == {Val("null", <<>>), Val("num", <<>>), Val("bool", <<>>), Val("arr", <<>>), Val("str", <<>>), Val("str", S("x")), Val("str", S("null"))}
Keys == {<<>>, S("a"), S("a_k"), S("k")}
\* a second message besides the first one
Others == {<<>>, <<[n |-> S("b"), v |-> Val("str", S("y"))]>>, <<[n |-> S("b"), v |-> Val("null", <<>>)]>>,
           <<[n |-> S("b_k"), v |-> [k |-> "obj", s |-> <<>>, m |-> <<[n |-> S("other"), v |-> Val("str", S("z"))], [n |-> S("context"), v |-> Val("str", S("k"))]>>]]>>}
\* fs: the fields of the first message (or <<simple value>> once chosen)
Init == /\ lang \in Langs /\ key \in Keys /\ more \in Others
        /\ fs \in {<<v>> : v \in Simple} \cup {<<>>, <<Val("top", <<>>)>>}
IsObj == \A i \in 1..Len(fs) : "n" \in DOMAIN fs[i]
PosOf(f) == SelectInSeq(Names, LAMBDA x : S(x) = f.n)
Next == /\ IsObj /\ Len(fs) < MaxFields
        /\ \E p \in 1..Len(Names) : /\ fs # <<>> => PosOf(fs[Len(fs)]) < p
                                   /\ \E v \in ValuesOf(Names[p]) : fs' = Append(fs, [n |-> S(Names[p]), v |-> v])
        /\ UNCHANGED <<lang, key, more>>
Msg == IF IsObj THEN [k |-> "obj", s |-> <<>>, m |-> fs] ELSE fs[1]
Doc == IF Msg.k = "top" THEN [k |-> "obj", s |-> <<>>, m |-> more] ELSE [k |-> "obj", s |-> <<>>, m |-> <<[n |-> key, v |-> Msg]>> \o more]
TheRules == Rules[RowOf(lang)]
Cats == CatsOf(TheRules)
Nums == <<[t |-> "int", s |-> S("0")], [t |-> "int", s |-> S("1")], [t |-> "int", s |-> S("7")], [t |-> "str", s |-> S("x")]>>
Q(c, m) == <<[c |-> c, m |-> m, pl |-> FALSE, n |-> Nums[1]]>> \o [i \in 1..Len(Nums) |-> [c |-> c, m |-> m, pl |-> TRUE, n |-> Nums[i]]]
Queries == Q(<<>>, S("a")) \o Q(S("k"), S("a")) \o Q(<<>>, S("a_k")) \o Q(S("k"), S("b")) \o Q(<<>>, <<>>) \o Q(S("a"), S("k"))
R == Read(Cats, Doc, "")
OneReading == Cardinality(R.cats) <= 1 \/ \E i \in 1..Len(Doc.m) : Ambiguous(Doc.m[i].v)
\* what every catalog is like
WellFormed == \A ms \in R.cats : \A i \in 1..Len(ms) :
  /\ ms[i].key # <<>> /\ HasCat(ms[i].m.tr, Other)
  /\ Single(ms[i].m.tr) \/ [j \in 1..Len(ms[i].m.tr) |-> ms[i].m.tr[j].c] = Cats
  /\ \A j \in 1..Len(ms) : ms[i].key = ms[j].key => i = j
  /\ NormMsg(Cats, ms[i].m) = ms[i].m
Answered == \A ms \in R.cats : \A i \in 1..Len(Queries) :
  LET a == Ask(lang, "d", TheRules, ms, Queries[i])
  IN a # {} /\ \A x \in a : (x.e.k = "" => x.s # <<>>) /\ (x.e.k # "" => x.s = Queries[i].m)
\* all answers; where an id in an error may be written in two ways, the longer one is shown by the harness
Pick(a, q) == CHOOSE x \in a : x.e.m \in {<<>>, FullKey(q)}
CaseOut == Emit([op |-> "js.known", in |-> [lang |-> lang, domain |-> "d", doc |-> Doc, fault |-> "", style |-> 0, qs |-> Queries],
                 exp |-> SetToSeq({[err |-> FALSE, msgs_set |-> SetToSeq(ShownMsgs(ms)), ans |-> [i \in 1..Len(Queries) |-> Pick(Ask(lang, "d", TheRules, ms, Queries[i]), Queries[i])]] : ms \in R.cats}
                                  \cup IF R.err THEN {[err |-> TRUE]} ELSE {})])
=============================================================================
