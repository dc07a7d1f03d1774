---------------------------- MODULE MC_CldrRules ----------------------------
(* All conditions of a few relations, written out, with various numbers.      *)
EXTENDS CldrRules, Emit
CONSTANTS Rels_
L(a, b) == <<Of10(a), Of10(b)>>
Small == {Rel("n", <<>>, neg, FALSE, <<L(1, 1)>>) : neg \in BOOLEAN}
         \cup {Rel("i", Of10(10), FALSE, FALSE, <<L(2, 4), L(7, 7)>>), Rel("n", Of10(10), FALSE, FALSE, <<L(0, 1)>>), Rel("v", <<>>, TRUE, FALSE, <<L(0, 0)>>),
               Rel("f", Of10(10), TRUE, FALSE, <<L(0, 0), L(5, 5)>>), Rel("t", <<>>, FALSE, FALSE, <<L(5, 5), L(10, 19)>>), Rel("w", <<>>, FALSE, FALSE, <<L(1, 2)>>),
               Rel("e", <<>>, FALSE, FALSE, <<L(0, 5)>>), Rel("c", <<>>, TRUE, FALSE, <<L(1, 5)>>)}
Pairs == {Join(op, a, b) : op \in {"and", "or"}, a \in Small, b \in Small}
RECURSIVE ShowList(_), Show(_)
ShowList(l) == (IF l[1][1] = l[1][2] THEN CodesOf10(l[1][1]) ELSE CodesOf10(l[1][1]) \o Codes("..") \o CodesOf10(l[1][2]))
               \o IF Len(l) = 1 THEN <<>> ELSE <<COMMA>> \o ShowList(Tail(l))
Show(n) == IF n.k = "rel" THEN Codes(n.o) \o (IF n.m = <<>> THEN <<>> ELSE Codes(" % ") \o CodesOf10(n.m)) \o Codes(IF n.neg THEN " != " ELSE " = ") \o ShowList(n.list)
           ELSE Show(n.x) \o Codes(IF n.k = "and" THEN " and " ELSE " or ") \o Show(n.y)
Num(t, s) == [t |-> t, s |-> Codes(s)]
Nums == <<Num("int", "0"), Num("int", "1"), Num("str", "1.0"), Num("str", "1.5"), Num("float64", "2.5"), Num("int", "-3"), Num("str", "10.05"), Num("uint8", "11"), Num("str", "1.50"),
          Num("str", "2c6"), Num("str", "1.12c1"), Num("float64", "0.1"), Num("int64", "1000007"), Num("str", "7.0")>>
Ops(i) == CHOOSE o \in Operands(Nums[i]).ops : TRUE
VARIABLES n, root
Init == n = [k |-> "none"] /\ root \in Small
\* the first relation is the root
Next == n.k = "none" /\ UNCHANGED root
        /\ \/ n' = root
           \/ \E op \in {"and", "or"}, y \in Small : Rels_ >= 2 /\ n' = Join(op, root, y)
           \/ Rels_ >= 3 /\ (\/ \E y \in Pairs : n' = Join("or", root, y)
                             \/ \E a \in Small, b \in Small : n' = Join("and", root, Join("and", a, b)) \/ n' = Join("or", Join("and", root, a), b))
RoundTrip == n.k # "none" => LET p == ParseRule(Show(n)) IN p.z = "ok" /\ p.n = n
\* the negation by De Morgan
RECURSIVE Not(_)
Not(x) == IF x.k = "rel" THEN [x EXCEPT !.neg = ~@] ELSE Join(IF x.k = "and" THEN "or" ELSE "and", Not(x.x), Not(x.y))
Negation == n.k # "none" => \A i \in 1..Len(Nums) : Holds(Not(n), Ops(i)) = ~Holds(n, Ops(i))
Set == <<[c |-> 3, n |-> n]>>
Pair == <<[c |-> 3, n |-> n], [c |-> 1, n |-> Not(n)], [c |-> 5, n |-> [k |-> "always"]]>>
Exclusive == n.k # "none" => \A i \in 1..Len(Nums) : Cardinality(CatsOfNumber(Pair, Ops(i))) = 1
Cat(rules, i) == CHOOSE c \in CatsOfNumber(rules, Ops(i)) : TRUE
CaseOut == n.k # "none" =>
  Emit([op |-> "cl.rules", in |-> [rules |-> <<[c |-> 3, s |-> Show(n)], [c |-> 5, s |-> Codes("@integer 1~3")]>>, nums |-> Nums],
        exp |-> <<[err |-> FALSE, cats |-> <<3, 5>>, vals |-> [i \in 1..Len(Nums) |-> [v |-> Cat(Set, i)]]]>>])
=============================================================================
