------------------------------ MODULE Sharing -------------------------------
(***************************************************************************)
(* What a bundle and its catalogs hand out. Every accessor returns a value  *)
(* of the caller's own: whatever the caller does to it changes neither the  *)
(* answers nor what accessors return later, nor other values handed out.    *)
(*                                                                         *)
(* A value is a set of rows [c, m, i, t]: for lists m is the element; for   *)
(* messages c, m, i and t are context, id, form and text.                   *)
(*                                                                         *)
(* heap : the values that exist, heap[1..Len(Accessors)] those of the       *)
(*        library, the others those handed out, as [v, from]                *)
(* hist : what the caller did                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Functions

CONSTANTS Accessors,    \* sequence of [name, kind ("list", "gettext", "json"), v]
          HowList, HowMap

VARIABLES heap, hist

svars == <<heap, hist>>

Own == Len(Accessors)
SharingInit == /\ heap = [i \in 1..Own |-> [v |-> Accessors[i].v, kind |-> Accessors[i].kind]]
               /\ hist = <<>>

Row(c, m, i, t) == [c |-> c, m |-> m, i |-> i, t |-> t]

Take(a) == /\ heap' = Append(heap, [v |-> heap[a].v, kind |-> heap[a].kind])
           /\ hist' = Append(hist, [k |-> "take", a |-> a, how |-> ""])

\* The forms of one message (the first of the value), or a copy of it.
FirstMsg(v) == CHOOSE r \in v : TRUE
OneMessage(v) == LET m == FirstMsg(v) IN { r \in v : r.c = m.c /\ r.m = m.m }
Derive(h) == /\ h > Own /\ heap[h].kind \in {"gettext", "json"} /\ heap[h].v # {}
             /\ heap' = Append(heap, [v |-> { Row("", "", r.i, r.t) : r \in OneMessage(heap[h].v) },
                                      kind |-> IF heap[h].kind = "gettext" THEN "forms" ELSE "message"])
             /\ hist' = Append(hist, [k |-> "derive", a |-> h, how |-> FirstMsg(heap[h].v).c \o "/" \o FirstMsg(heap[h].v).m])

\* Ways to spoil a value: all its elements or texts are changed, everything is removed, something is added.
Spoiled(o, how) ==
  CASE how = "drop" -> {}
    [] how = "add"  -> { r \in o.v : o.kind \notin {"gettext", "json"} \/ r.m # "new" } \cup { Row(IF o.kind \in {"gettext", "json"} THEN "new" ELSE "", IF o.kind \in {"forms", "message"} THEN "" ELSE "new",
                                      IF o.kind = "list" THEN 0 ELSE 1, IF o.kind = "list" THEN "" ELSE "new") }
    [] how = "change" -> IF o.kind = "list" THEN { Row("", "!", 0, "") : r \in o.v }
                         ELSE IF o.kind = "gettext" THEN {}             \* messages can only be emptied
                         ELSE { [r EXCEPT !.t = "!"] : r \in o.v }
Spoil(h, how) == /\ h > Own /\ Spoiled(heap[h], how) # heap[h].v
                 /\ (heap[h].kind \in {"forms", "message"} /\ how = "add" => \A r \in heap[h].v : r.i # 1)
                 /\ (heap[h].kind = "list" => how = "change")
                 /\ heap' = [heap EXCEPT ![h].v = Spoiled(heap[h], how)]
                 /\ hist' = Append(hist, [k |-> "spoil", a |-> h, how |-> how])

SharingNext == \/ \E a \in 1..Own : Take(a)
               \/ \E h \in 1..Len(heap) : Derive(h) \/ (\E how \in HowMap : Spoil(h, how))

\* What the library owns is what it was created with.
LibraryUnchanged == \A i \in 1..Own : heap[i].v = Accessors[i].v
\* Only the caller who spoils a value sees the difference.
OthersUnchanged == [][\A h \in 1..Len(heap) : heap'[h] # heap[h] =>
                        hist'[Len(hist')].k = "spoil" /\ hist'[Len(hist')].a = h]_svars
=============================================================================
