--------------------------- MODULE MC_JsonHistory ---------------------------
(* Every short history of a JSON catalog.                                     *)
EXTENDS JsonHistory, Emit
CONSTANTS MaxSteps
VARIABLES lang, start, st, steps, res
S(s) == Codes(s)
Tr(seq) == [i \in 1..Len(seq) |-> [c |-> seq[i][1], s |-> S(seq[i][2])]]
M(comment, ctx, tr) == [comment |-> S(comment), ctx |-> S(ctx), tr |-> Tr(tr)]
In(key, m) == [key |-> S(key), nil |-> FALSE, m |-> m]
Starts == {
  <<>>,
  <<In("b", M("", "", <<<<5, "x">>>>)), In("a_k", M("", "k", <<<<1, "one">>, <<5, "">>>>))>>,
  <<In("a", M("c", "", <<<<0, "z">>, <<4, "m">>, <<5, "o">>>>))>>,
  <<In("a", M("c", "", <<<<5, "o">>>>)), In("b", M("", "", <<<<1, "x">>>>))>>,
  <<In("a", M("", "", <<<<5, "o">>>>)), [key |-> S("n"), nil |-> TRUE, m |-> M("", "", <<>>)]>>}
Step0 == [k |-> "", i |-> 1, j |-> 1, key |-> S("a_k"), f |-> "comment", c |-> 1, s |-> S("new"), q |-> [c |-> S("k"), m |-> S("a"), pl |-> FALSE, n |-> [t |-> "int", s |-> S("1")]], ms |-> <<>>]
One(k) == [Step0 EXCEPT !.k = k]
Alphabet == {One("get"), One("enc"), One("dec"), One("build"), One("wfail"), One("msgenc"), One("setin"), One("nilin"), One("apply"), One("trin"),
             [One("trin") EXCEPT !.i = 2, !.c = 5], [One("delin") EXCEPT !.c = 5],
             [One("clone") EXCEPT !.key = S("q")], One("trout"), [One("trout") EXCEPT !.key = S("a")], [One("setout") EXCEPT !.f = "ctx"], One("rmout"),
             [One("look") EXCEPT !.q.pl = TRUE], [One("look") EXCEPT !.q.c = <<>>],
             [One("fill") EXCEPT !.ms = <<In("a_k", M("", "", <<<<5, "filled">>>>))>>],
             [One("fill") EXCEPT !.ms = <<In("a", M("", "", <<<<3, "few">>, <<5, "other">>>>)), In("z_k", M("", "k", <<<<5, "">>>>))>>]}
TheRules == Rules[RowOf(lang)]
Cats == CatsOf(TheRules)
Init == /\ lang \in {"en", "ar"} /\ start \in Starts
        /\ st = Start(Cats, start) /\ steps = <<>> /\ res = <<>>
Next == /\ Len(steps) < MaxSteps /\ ~Build(Cats, start).err
        /\ \E x \in Alphabet : LET d == Do(st, x, lang, "d", TheRules)
                               IN st' = d.st /\ steps' = Append(steps, x) /\ res' = Append(res, d.res)
        /\ UNCHANGED <<lang, start>>
WellFormed == \A i \in 1..Len(st.cat) :
  /\ ValidMsg(st.cat[i].key, st.cat[i].m) /\ NormMsg(Cats, st.cat[i].m) = st.cat[i].m
  /\ \A j \in 1..Len(st.cat) : st.cat[i].key = st.cat[j].key => i = j
\* reading what was written yields the same catalog
AsRead(e) == [n |-> e.key, v |-> [k |-> "obj", s |-> <<>>,
               m |-> <<[n |-> S("comment"), v |-> [k |-> "str", s |-> e.comment]], [n |-> S("context"), v |-> [k |-> "str", s |-> e.ctx]]>>
                     \o [i \in 1..Len(e.tr) |-> [n |-> S(CategoryNames[e.tr[i].c + 1]), v |-> [k |-> "str", s |-> e.tr[i].s]]]]]
RoundTrip == st.cat # <<>> => Read(Cats, [k |-> "obj", s |-> <<>>, m |-> [i \in 1..Len(st.cat) |-> AsRead(Encoded(st.cat)[i])]], "") = [err |-> FALSE, cats |-> {Sorted(st.cat)}]
CatalogAlone == [][st'.cat # st.cat => steps'[Len(steps')].k \in {"build", "fill"}]_<<lang, start, st, steps, res>>
PickAns(set, x) == IF x.k # "look" THEN CHOOSE r \in set : TRUE ELSE CHOOSE r \in set : r.e.m \in {<<>>, FullKey(x.q)}
CaseOut == (Len(steps) = MaxSteps \/ Build(Cats, start).err) =>
  Emit([op |-> "js.story", in |-> [lang |-> lang, domain |-> "d", style |-> 0, ins |-> start, steps |-> steps],
        exp |-> <<IF Build(Cats, start).err THEN [err |-> TRUE]
                  ELSE [err |-> FALSE, res |-> [i \in 1..Len(steps) |-> PickAns(res[i], steps[i])], fin |-> Final(st)]>>])
=============================================================================
