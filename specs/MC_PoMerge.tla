----------------------------- MODULE MC_PoMerge ------------------------------
(* Every sequence of up to MaxOps additions over a set of messages.          *)
EXTENDS PoMerge, Emit
CONSTANT MaxOps
A == Codes("a")
B == Codes("b")
X == Codes("x")
R(p, n, c) == [path |-> Codes(p), line |-> n, col |-> c]
S(i, v) == [idx |-> Codes(i), v |-> Codes(v)]
M(ctx, id) == [ctx |-> ctx, id |-> id, pl |-> <<>>, str |-> {}, tr |-> <<>>, ex |-> <<>>, refs |-> <<>>, flags |-> <<>>, nocom |-> FALSE]
L1 == Codes("one")
L2 == Codes("two")
L3 == Codes("six")
Pool == << [M(<<>>, A) EXCEPT !.str = {S("0", "t")}, !.refs = <<R("f", 10, 0), R("e", 2, 0)>>, !.flags = <<Codes("go"), Codes("c")>>],
           [M(<<>>, A) EXCEPT !.pl = Codes("p"), !.str = {S("0", "u"), S("1", "v")}, !.tr = <<L2, L1>>, !.refs = <<R("f", 9, 1), R("f", 10, 0)>>],
           [M(<<>>, A) EXCEPT !.pl = Codes("q"), !.tr = <<L1, L3>>, !.ex = <<L2>>, !.flags = <<Codes("b"), Codes("c")>>, !.refs = <<R("f", 9, 0)>>],
           [M(<<>>, A) EXCEPT !.nocom = TRUE, !.str = {S("0", "w")}],
           [M(X, A) EXCEPT !.str = {S("2", "x")}, !.ex = <<L1, L2>>, !.refs = <<R("d", 1, 0)>>],
           [M(<<>>, <<>>) EXCEPT !.str = {S("0", "h")}, !.tr = <<L1>>],
           [M(X, B) EXCEPT !.pl = Codes("p"), !.ex = <<L3>>] >>
Ops == [i \in 1..Len(Pool) |-> [k |-> "add", m |-> Pool[i]]] \o
       << [k |-> "ref", ctx |-> <<>>, id |-> A, ref |-> R("e", 2, 0)], [k |-> "flag", ctx |-> <<>>, id |-> A, flag |-> Codes("a")] >>

VARIABLES ops, file
Init == ops = <<>> /\ file = {}
Next == Len(ops) < MaxOps /\ \E i \in 1..Len(Ops) : ops' = Append(ops, Ops[i]) /\ file' = Apply(file, Ops[i])

Adds(ctx, id) == SelectSeq(ops, LAMBDA o : o.k = "add" /\ o.m.ctx = ctx /\ o.m.id = id)
Unique == \A m, n \in file : (m.ctx = n.ctx /\ m.id = n.id) => m = n
NothingLost == \A i \in 1..Len(ops) : (ops[i].k = "add" /\ ops[i].m.id # <<>>) => Held(file, ops[i].m.ctx, ops[i].m.id) # {}
NoEmptyId == \A m \in file : m.id # <<>>
FirstWins == \A m \in file : LET a == Adds(m.ctx, m.id)
  IN /\ m.str = a[1].m.str
     /\ m.pl = LET p == SelectSeq(a, LAMBDA o : o.m.pl # <<>>) IN IF p = <<>> THEN <<>> ELSE p[1].m.pl
CommentsKept == \A m \in file : LET a == Adds(m.ctx, m.id)
  IN \A i \in 1..Len(a) : ToSet(a[i].m.tr) \subseteq ToSet(m.tr) /\ ToSet(a[i].m.ex) \subseteq ToSet(m.ex)
                          /\ ToSet(a[i].m.refs) \subseteq ToSet(m.refs) /\ ToSet(a[i].m.flags) \subseteq ToSet(m.flags)
DuplicateFree == \A m \in file : LET u(s) == Cardinality(ToSet(s)) = Len(s)
                                     added == Len(SelectSeq(ops, LAMBDA o : o.k = "ref"))
  IN u(m.tr) /\ u(m.ex) /\ u(m.flags) /\ (added = 0 => u(m.refs))
Commutes == Len(ops) >= 2 =>
  LET n == Len(ops)
      swapped == Final(SubSeq(ops, 1, n - 2) \o <<ops[n], ops[n - 1]>>)
      view(f) == {[ctx |-> m.ctx, id |-> m.id, refs |-> ToSet(m.refs), flags |-> ToSet(m.flags), tr |-> ToSet(m.tr), ex |-> ToSet(m.ex)] : m \in f}
  IN (ops[n].k = "add" /\ ops[n - 1].k = "add") => view(swapped) = view(file)
CaseOut == Emit([op |-> "po.merge", in |-> [ops |-> ops, fresh |-> TRUE], exp |-> <<Out(file)>>])
=============================================================================
