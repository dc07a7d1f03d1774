--------------------------- MODULE MC_PluralForms ---------------------------
(* All expression trees with up to Ops operators, rendered with as few and    *)
(* with as many brackets as possible.                                         *)
EXTENDS PluralForms, Emit
CONSTANTS Ops, Wide
Leaves == {Var, Num(<<0>>), Num(<<2>>)} \cup IF Wide THEN {Num(<<1>>), Num(<<3>>)} ELSE {}
BinOps == {"||", "&&", "==", "!=", "<", ">", "<=", ">=", "%"}
LevelOf(o) == CHOOSE l \in 1..5 : o \in Levels[l]

RECURSIVE Trees(_)
Trees(k) == IF k = 0 THEN Leaves
            ELSE UNION {{Op(o, x, y) : o \in BinOps, x \in Trees(i), y \in Trees(k - 1 - i)} : i \in 0..(k - 1)}
                 \cup UNION {UNION {{If(c, a, b) : c \in Trees(i), a \in Trees(j), b \in Trees(k - 1 - i - j)} : j \in 0..(k - 1 - i)} : i \in 0..(k - 1)}

\* level of an expression: 0 conditional, 1..5 operators, 6 leaves; an operand is bracketed if its level is too low
Prec(e) == CASE e.k = "if" -> 0 [] e.k = "op" -> LevelOf(e.op) [] OTHER -> 6
Bracket(s) == Codes("(") \o s \o Codes(")")
RECURSIVE Show(_, _, _)
Show(e, full, sp) ==
  LET sub(x, min) == IF (full /\ Prec(x) < 6) \/ Prec(x) < min THEN Bracket(Show(x, full, sp)) ELSE Show(x, full, sp)
  IN CASE e.k = "n" -> Codes("n")
       [] e.k = "num" -> CodesOf10(e.d)
       [] e.k = "op" -> LET l == Prec(e)
                            \* comparisons and % in a row need brackets on the left too, as chains are optional
                        IN sub(e.x, IF l <= 2 THEN l ELSE l + 1) \o sp \o Codes(e.op) \o sp \o sub(e.y, l + 1)
       [] e.k = "if" -> sub(e.c, 1) \o sp \o Codes("?") \o sp \o sub(e.a, 0) \o sp \o Codes(":") \o sp \o sub(e.b, 0)
Header(e, full, sp) == Codes("nplurals=9;") \o sp \o Codes("plural=") \o sp \o Show(e, full, sp) \o sp \o Codes(";")

Ns == << <<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<1, 2>> >>
\* first the root is chosen, then the rest
VARIABLES e, root
Roots == {[op |-> "leaf", i |-> 0, j |-> 0]} \cup [op : BinOps \cup {"if"}, i : 0..(Ops - 1), j : 0..(Ops - 1)]
Init == root \in Roots /\ e = Var
Next == /\ e = Var /\ root.op # "done" /\ root' = [root EXCEPT !.op = "done"]
        /\ \E k \in 0..Ops :
             IF root.op = "leaf" THEN k = 0 /\ e' \in Leaves
             ELSE /\ k >= 1 + root.i + root.j
                  /\ IF root.op = "if" THEN \E c \in Trees(root.i), a \in Trees(root.j), b \in Trees(k - 1 - root.i - root.j) : e' = If(c, a, b)
                     ELSE root.i + root.j = k - 1 /\ \E x \in Trees(root.i), y \in Trees(root.j) : e' = Op(root.op, x, y)
Vals == [i \in 1..Len(Ns) |-> Eval(e, Ns[i])]
Defined == SelectSeq([i \in 1..Len(Ns) |-> i], LAMBDA i : Vals[i] # Undefined)
Rendered(full, sp) == LET p == ParseHeader(Header(e, full, sp)) IN p.z = "ok" /\ p.n = e /\ p.np = <<9>>
RoundTrip == Rendered(FALSE, <<>>) /\ Rendered(TRUE, <<SP>>)
Boolean == e.k = "op" /\ e.op # "%" => \A i \in 1..Len(Ns) : Vals[i] \in {Undefined, Zero10, One10}
DeMorgan == e.k = "op" /\ e.op \in {"&&", "||"} =>
  LET not(x) == Op("==", x, Num(Zero10))
      o == IF e.op = "&&" THEN "||" ELSE "&&"
  IN \A i \in 1..Len(Ns) : Eval(not(Op(o, not(e.x), not(e.y))), Ns[i]) = Vals[i]
Case(full, sp) == Emit([op |-> "pl.parse",
   in |-> [text |-> Header(e, full, sp), nums |-> [i \in 1..Len(Defined) |-> [t |-> "int", s |-> CodesOf10(Ns[Defined[i]])]]],
   exp |-> <<[err |-> FALSE, np |-> <<9>>, vals |-> [i \in 1..Len(Defined) |-> [v |-> Vals[Defined[i]]]]]>>])
CaseOut == root.op = "done" => Case(FALSE, <<>>) /\ Case(TRUE, <<SP>>)
=============================================================================
