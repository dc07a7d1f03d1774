----------------------------- MODULE MC_Sharing -----------------------------
(* Every history of taking values from one bundle and its catalogs and        *)
(* spoiling them. World is what the bundle is created from.                    *)
EXTENDS Sharing, Emit, TLC

CONSTANTS MaxSteps

Lst(S) == { Row("", x, 0, "") : x \in S }
Gettext == { Row("", "m", 0, "m1"), Row("", "m", 1, "mn"), Row("c", "m", 0, "c1"), Row("c", "x", 0, "x1"), Row("c", "x", 2, "x3") }
JSON == { Row("", "k", 1, "k1"), Row("", "k", 5, "kn"), Row("c", "k_c", 5, "cn") }
World == <<
  [name |-> "languages", kind |-> "list", v |-> Lst({"de", "fr", "en"})],
  [name |-> "domains", kind |-> "list", v |-> Lst({"", "j"})],
  [name |-> "localizer domains", kind |-> "list", v |-> Lst({"", "j"})],
  [name |-> "gettext", kind |-> "gettext", v |-> Gettext],
  [name |-> "json", kind |-> "json", v |-> JSON] >>

SetToSeq(S) == LET f == CHOOSE g \in [1..Cardinality(S) -> S] : IsInjective(g) IN f

Init == SharingInit
Next == Len(hist) < MaxSteps /\ SharingNext
\* A value that was just taken says nothing new; the history ends with a change of something.
Worth == hist # <<>> /\ hist[Len(hist)].k = "spoil"
EmitFinal == Worth => Emit([id |-> 0, op |-> "share.story", in |-> [gettext |-> SetToSeq(Gettext), json |-> SetToSeq(JSON), steps |-> hist],
                            exp |-> <<[vals |-> [i \in 1..Len(heap) |-> [rows_set |-> heap[i].v]]]>>])
=============================================================================
