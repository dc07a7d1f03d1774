------------------------------- MODULE PoMerge -------------------------------
(* Collecting messages into a file (catalog/po file.go, message.go,           *)
(* comment.go): additions, references and flags as a machine over the file.   *)
(* A message: [ctx, id, pl, str, tr, ex, refs, flags]; tr and ex are the      *)
(* non-empty lines of the comments; refs are [path, line, col].               *)
EXTENDS Text

RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
RefLess(a, b) == IF a.path # b.path THEN Less(a.path, b.path)
                 ELSE IF a.line # b.line THEN a.line < b.line ELSE a.col < b.col
SortedRefs(s) == SortSeq(s, RefLess)
SortedFlags(s) == SortSeq(s, Less)
Union(a, b) == FoldLeft(LAMBDA acc, x : IF x \in ToSet(acc) THEN acc ELSE Append(acc, x), <<>>, a \o b)
\* the references of b that a does not have are added
Joined(a, b) == FoldLeft(LAMBDA acc, x : IF x \in ToSet(acc) THEN acc ELSE Append(acc, x), a, b)

Merged(m, o) == [m EXCEPT !.pl = IF @ = <<>> THEN o.pl ELSE @,
                          !.tr = IF o.tr = <<>> THEN @ ELSE Union(@, o.tr),
                          !.ex = IF o.ex = <<>> THEN @ ELSE Union(@, o.ex),
                          !.flags = IF o.nocom THEN @ ELSE SortedFlags(Union(@, o.flags)),
                          !.refs = IF o.nocom THEN @ ELSE SortedRefs(Joined(@, o.refs)),
                          !.nocom = FALSE]

\* a file is a set of messages, at most one for each context and id
Held(f, ctx, id) == {m \in f : m.ctx = ctx /\ m.id = id}
Change(f, ctx, id, Op(_)) == (f \ Held(f, ctx, id)) \cup {Op(m) : m \in Held(f, ctx, id)}
\* a single reference is put in the list as it is
WithRef(m, r) == [m EXCEPT !.refs = IF @ = <<>> THEN <<r>> ELSE SortedRefs(Append(@, r)), !.nocom = FALSE]
WithFlag(m, x) == IF x \in ToSet(m.flags) THEN m ELSE [m EXCEPT !.flags = SortedFlags(Append(@, x))]

Apply(f, op) ==
  CASE op.k = "add" -> IF op.m.id = <<>> THEN f
                       ELSE IF Held(f, op.m.ctx, op.m.id) = {} THEN f \cup {op.m}
                       ELSE Change(f, op.m.ctx, op.m.id, LAMBDA m : Merged(m, op.m))
    [] op.k = "ref" -> Change(f, op.ctx, op.id, LAMBDA m : WithRef(m, op.ref))
    [] op.k = "flag" -> Change(f, op.ctx, op.id, LAMBDA m : IF m.nocom THEN m ELSE WithFlag(m, op.flag))
Final(ops) == FoldLeft(Apply, {}, ops)
MsgOut(m) == [ctx |-> m.ctx, id |-> m.id, pl |-> m.pl, str_set |-> m.str, tr |-> m.tr, ex |-> m.ex, refs |-> m.refs, flags |-> m.flags]
Out(f) == [messages_set |-> {MsgOut(m) : m \in f}, argskept |-> TRUE]
=============================================================================
