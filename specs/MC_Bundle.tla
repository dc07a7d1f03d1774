----------------------------- MODULE MC_Bundle ------------------------------
(* Exhaustive exploration of bundle creation; every final state is emitted   *)
(* as one case for the implementation (option sequence x availability).      *)
EXTENDS Lookup, Emit

CONSTANTS MaxOpts, Langs, Doms, Level

Tag(t) == [k |-> "tag", t |-> t]
Str(t) == [k |-> "str", t |-> t]
BadStr == [k |-> "bad", t |-> "bad"]
BadType == [k |-> "type", t |-> "type"]

Cat(l, d, st) == [l |-> l, d |-> d, st |-> st, kind |-> "po", rule |-> "ne1", msgs |-> <<>>]

LangOpts == { [k |-> "lang", req |-> r, ls |-> <<Tag(l)>>] : r \in BOOLEAN, l \in Langs }
PairOpts == { [k |-> "lang", req |-> r, ls |-> <<Tag(l), Str(m)>>] : r \in BOOLEAN, l \in Langs, m \in Langs }
OddOpts == { [k |-> "lang", req |-> r, ls |-> ls] : r \in BOOLEAN,
               ls \in { <<>>, <<BadStr>>, <<BadType>>, <<Tag("und")>>, <<Tag("und"), Tag("de")>>, <<Tag("de"), BadType>> } }
SrcOpts == { [k |-> "src", ls |-> <<Tag(l)>>] : l \in (Langs \cup {"en"}) }
FbOpts == { [k |-> "fb", ls |-> <<Tag(l)>>] : l \in (Langs \cup {"en"}) } \cup { [k |-> "fb", ls |-> <<BadType>>], [k |-> "fb", ls |-> <<BadStr>>] }
MiscOpts == { [k |-> "invalid", s |-> s] : s \in {"nilopt", "nilprinter", "nilloader", "nilfunc", "nilmatcher", "nilfs", "emptyfs"} }
            \cup { [k |-> "printer", s |-> "tag"], [k |-> "nocb"], [k |-> "loader", s |-> "d1"] }

\* Level "wide": every option kind; "deep": only the kinds whose order matters.
AllOpts == IF Level = "wide" THEN LangOpts \cup PairOpts \cup OddOpts \cup SrcOpts \cup FbOpts \cup MiscOpts
           ELSE LangOpts \cup { [k |-> "src", ls |-> <<Tag(l)>>] : l \in {"de", "en"} } \cup { [k |-> "fb", ls |-> <<Tag(l)>>] : l \in {"de", "fr"} }
                \cup { [k |-> "fb", ls |-> <<Tag("en")>>] }

OptSeqs == UNION { [1..n -> AllOpts] : n \in 0..MaxOpts }

\* Which language x domain catalogs exist; loaders for a set of domains come first or last.
Tables == [Langs \X Doms -> {"ok", "missing", "broken"}]
CatsOf(t) == LET ps == SetToSeq(Langs \X Doms)
                 all == [i \in 1..Len(ps) |-> Cat(ps[i][1], ps[i][2], t[ps[i]])]
             IN SelectSeq(all, LAMBDA c : c.st # "missing")
LoaderOpts(S) == [i \in 1..Cardinality(S) |-> [k |-> "loader", s |-> SetToSeq(S)[i]]]
Cb == <<[k |-> "cb"]>>

Init == /\ \E t \in Tables, S \in SUBSET Doms, o \in OptSeqs :
             cfg = [opts |-> (IF Len(o) % 2 = 0 THEN Cb \o LoaderOpts(S) \o o ELSE o \o LoaderOpts(S) \o Cb),
                    cats |-> CatsOf(t), matcher |-> "exact", steps |-> <<>>]
        /\ b = InitBuilder /\ LookupInit

Next == SessionNext

EmitFinal == SessionOver => Emit([id |-> 0, op |-> "session", in |-> cfg, exp |-> <<SessionOutcome>>])
=============================================================================
