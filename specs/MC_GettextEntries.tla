------------------------- MODULE MC_GettextEntries --------------------------
(* Every small file of finished and unfinished entries in two contexts.       *)
EXTENDS GettextCatalog, Emit
CONSTANTS MaxEntries
VARIABLES kind, head, msgs, forms
S(s) == Codes(s)
F(seq) == [i \in 1..Len(seq) |-> [i |-> seq[i][1], s |-> S(seq[i][2])]]
Bodies == {F(<<<<0, "done">>>>), F(<<<<0, "">>>>), F(<<<<0, "f0">>, <<1, "f1">>>>), F(<<<<0, "">>, <<1, "f1">>>>), F(<<<<0, "f0">>, <<1, "">>>>), F(<<<<0, "f0">>>>)}
Marks == {[flags |-> <<>>, obs |-> FALSE], [flags |-> <<FUZZY>>, obs |-> FALSE], [flags |-> <<S("c-format"), FUZZY>>, obs |-> FALSE],
          [flags |-> <<FUZZY, S("x")>>, obs |-> FALSE], [flags |-> <<S("no-wrap"), S("fuzzyness")>>, obs |-> FALSE], [flags |-> <<>>, obs |-> TRUE], [flags |-> <<FUZZY>>, obs |-> TRUE]}
Init == kind \in {"po", "mo"} /\ head \in BOOLEAN /\ msgs = <<>> /\ forms = <<>>
Places == <<<<<<>>, S("a")>>, <<<<>>, S("b")>>, <<S("k"), S("a")>>, <<S("k"), S("b")>>>>
PlaceOf(x) == SelectInSeq(Places, LAMBDA p : p[1] = x.c /\ p[2] = x.m)
NextEntry == /\ forms # <<>> /\ Len(msgs) < MaxEntries
        /\ \E p \in 1..Len(Places), f \in Bodies, m \in Marks :
             /\ msgs # <<>> => PlaceOf(msgs[Len(msgs)]) < p
             /\ kind = "mo" => m.flags = <<>> /\ ~m.obs
             /\ msgs' = Append(msgs, [c |-> Places[p][1], m |-> Places[p][2], f |-> f, flags |-> m.flags, obs |-> m.obs])
        /\ UNCHANGED <<kind, head, forms>>
File == [kind |-> kind, cldr |-> FALSE, head |-> head, pf |-> S("nplurals=2; plural=n != 1;"), x |-> <<>>, msgs |-> msgs]
Rule == RuleOf(File, RowOf("de"))
One(c, m) == <<[c |-> c, m |-> m, pl |-> FALSE, n |-> [t |-> "int", s |-> S("0")]], [c |-> c, m |-> m, pl |-> TRUE, n |-> [t |-> "int", s |-> S("1")]],
               [c |-> c, m |-> m, pl |-> TRUE, n |-> [t |-> "int", s |-> S("7")]]>>
Queries == One(<<>>, S("a")) \o One(<<>>, S("b")) \o One(S("k"), S("a")) \o One(S("k"), S("b")) \o One(<<>>, <<>>) \o One(S("k"), <<>>) \o One(S("z"), S("a"))
\* the forms of the numbers are computed once
Next == \/ NextEntry
        \/ /\ forms = <<>> /\ forms' = [i \in 1..3 |-> FormsOfRule(Rule.r, Queries[i].n)]
           /\ UNCHANGED <<kind, head, msgs>>
Answers(i) == AskAt("de", "d", File, Queries[i], forms[((i - 1) % 3) + 1])
\* nothing unfinished is ever served
Served(i) == \E x \in 1..Len(msgs) : msgs[x].c = Queries[i].c /\ msgs[x].m = Queries[i].m /\ ~msgs[x].obs /\ FUZZY \notin ToSet(msgs[x].flags)
Never == forms # <<>> => \A i \in 1..Len(Queries) : \A a \in Answers(i) : (a.e.k \in {"", "tr"}) = Served(i) /\ (a.e.k = "" => a.s # <<>>) /\ (a.e.k # "" => a.s = Queries[i].m)
\* a context or message may be missing, the harness tells which; both are listed per context
Pick(i, k) == IF Cardinality(Answers(i)) = 1 THEN CHOOSE a \in Answers(i) : TRUE ELSE CHOOSE a \in Answers(i) : a.e.k = k[IF Queries[i].c = <<>> THEN 1 ELSE 2]
CaseOut == forms # <<>> /\ ~Void(File) => Emit([op |-> "gc.known", in |-> [lang |-> "de", domain |-> "d", file |-> File, style |-> 0, qs |-> Queries],
                 exp |-> SetToSeq({[err |-> FALSE, ans |-> [i \in 1..Len(Queries) |-> Pick(i, k)]] : k \in {<<"ctx", "ctx">>, <<"ctx", "msg">>, <<"msg", "ctx">>, <<"msg", "msg">>}})])
=============================================================================
