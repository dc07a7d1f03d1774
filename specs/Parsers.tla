------------------------------ MODULE Parsers -------------------------------
(***************************************************************************)
(* What every parser promises, whatever it is given. A document is a        *)
(* sequence of tokens; whoever writes it may make mistakes (Typing.. below), *)
(* and a parser reads it to its end, at the latest, and answers with either  *)
(* a value or an error. A value can be asked anything.                       *)
(*                                                                         *)
(* doc  : the document so far                                               *)
(* muts : number of mistakes made in a document that was right              *)
(* rd   : the reading of doc: [pos, ans] with ans in "", "value", "error"   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Alphabets,    \* [format -> set of tokens]
          Templates,    \* set of [fmt, toks]: documents in the format
          MaxLen, MaxMut

VARIABLES fmt, doc, muts, rd
pvars == <<fmt, doc, muts, rd>>

Unread == [pos |-> 0, ans |-> ""]
ParsersInit == /\ rd = Unread
               /\ \/ fmt \in DOMAIN Alphabets /\ doc = <<>> /\ muts = -1
                  \/ \E t \in Templates : fmt = t.fmt /\ doc = t.toks /\ muts = 0

\* Any sequence of tokens ...
Write(t) == /\ muts = -1 /\ Len(doc) < MaxLen /\ t \in Alphabets[fmt]
            /\ doc' = Append(doc, t) /\ UNCHANGED <<fmt, muts>>
\* ... and everything that is a few mistakes away from a document.
Without(i) == SubSeq(doc, 1, i - 1) \o SubSeq(doc, i + 1, Len(doc))
Mistake(d) == /\ muts \in 0..(MaxMut - 1) /\ d # doc
              /\ doc' = d /\ muts' = muts + 1 /\ UNCHANGED fmt
Cut(i)    == Mistake(SubSeq(doc, 1, i))
Drop(i)   == Mistake(Without(i))
Double(i) == Mistake(SubSeq(doc, 1, i) \o SubSeq(doc, i, Len(doc)))
Swap(i)   == i < Len(doc) /\ Mistake(SubSeq(doc, 1, i - 1) \o <<doc[i+1], doc[i]>> \o SubSeq(doc, i + 2, Len(doc)))
Put(i, t) == Mistake([doc EXCEPT ![i] = t])
Insert(i, t) == Mistake(SubSeq(doc, 1, i - 1) \o <<t>> \o SubSeq(doc, i, Len(doc)))

\* A parser: each step consumes at least one token or answers.
Consume == rd.ans = "" /\ rd.pos < Len(doc) /\ \E p \in (rd.pos + 1)..Len(doc) : rd' = [rd EXCEPT !.pos = p]
Refuse  == rd.ans = "" /\ rd' = [rd EXCEPT !.ans = "error"]
Deliver == rd.ans = "" /\ rd.pos = Len(doc) /\ rd' = [rd EXCEPT !.ans = "value"]
Read == (Consume \/ Refuse \/ Deliver) /\ UNCHANGED <<fmt, doc, muts>>

Writing == /\ rd = Unread /\ UNCHANGED rd
           /\ \/ \E t \in Alphabets[fmt] : Write(t) \/ \E i \in 1..Len(doc) : Put(i, t) \/ Insert(i, t)
              \/ \E i \in 1..Len(doc) : Cut(i - 1) \/ Drop(i) \/ Double(i) \/ Swap(i)

\* Steps of the reading that remain; every step of it is one less.
Remaining == IF rd.ans # "" THEN 0 ELSE 1 + Len(doc) - rd.pos
Terminates == [][rd' # rd => (IF rd'.ans # "" THEN 0 ELSE 1 + Len(doc') - rd'.pos) < Remaining]_pvars

=============================================================================
