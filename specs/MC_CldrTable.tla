---------------------------- MODULE MC_CldrTable ----------------------------
(* Every built-in language with all small integers, multiples of powers,      *)
(* fractions and compact numbers.                                             *)
EXTENDS CldrTable, Emit
CONSTANTS Upto
P == INSTANCE PluralTable
Chunk == 100
Spec1 == <<0, 1, 2, 3, 11, 40, 100>>
Bases == <<1000, 2000, 20000, 40000, 60000, 80000, 100000, 110000, 120000, 140000, 1000000, 1100000, 2000000, 3040000, 10000000, 1000100000>>
Large == [k \in 1..(Len(Bases) * Len(Spec1)) |-> Bases[1 + ((k - 1) \div Len(Spec1))] + Spec1[1 + ((k - 1) % Len(Spec1))]]
Ints == [i \in 1..(Upto + 1) |-> i - 1] \o Large \o <<2147483647>>
\* fractions: every small integer part with every short fraction
Wholes == <<"0", "1", "2", "3", "4", "5", "6", "7", "11", "12", "14", "20", "100", "101", "1000000">>
Fracs == <<".0", ".1", ".2", ".3", ".4", ".5", ".6", ".9", ".00", ".01", ".02", ".03", ".04", ".10", ".11", ".12", ".14", ".19", ".20", ".21", ".22", ".50", ".000", ".100", ".110", ".111", ".1000001">>
Mants == <<"0", "1", "2", "3", "5", "1.1", "1.5", "1.05", "0.000001", "1.0000001", "21", "1.0000000", "100">>
Exps == <<"c0", "c1", "c2", "c3", "c5", "c6", "c7", "c9">>
Pairs(a, b) == [k \in 1..(Len(a) * Len(b)) |-> [t |-> "str", s |-> Codes(a[1 + ((k - 1) \div Len(b))] \o b[1 + ((k - 1) % Len(b))])]]
Nums == [i \in 1..Len(Ints) |-> [t |-> "int64", s |-> DigitsOf(Ints[i])]] \o Pairs(Wholes, Fracs) \o Pairs(Mants, Exps)
Chunks == (Len(Nums) + Chunk - 1) \div Chunk
AllOps == [i \in 1..Len(Nums) |-> CHOOSE o \in Operands(Nums[i]).ops : TRUE]
\* first the row's numbers are categorised, then each language is asked
VARIABLES row, part
Init == row \in 1..Len(Table) /\ part = 0
Next == part < Chunks /\ part' = part + 1 /\ UNCHANGED row
LastOf == IF part * Chunk < Len(Nums) THEN part * Chunk ELSE Len(Nums)
Here == ((part - 1) * Chunk + 1)..LastOf
Accepted == \A k \in 1..Len(Table[row].r) : ParseRule(Codes(Table[row].r[k].s)).z = "ok"
OneRow == part = 0 => \A l \in Table[row].l : Cardinality({i \in 1..Len(Table) : l \in Table[i].l}) = 1
Disjoint == part > 0 => \A i \in Here : Cardinality(CatsOfNumber(Rules[row], AllOps[i])) = 1
                            \/ AllOps[i].c > 5          \* a few rules overlap on large exponents of small numbers, the first one applies
Listed == part > 0 => \A i \in Here : \E k \in 1..Len(CatsOf(Rules[row])) : CatsOf(Rules[row])[k] \in CatsOfNumber(Rules[row], AllOps[i])
CatOf(r, i) == CHOOSE c \in CatsOfNumber(Rules[r], AllOps[i]) : \A d \in CatsOfNumber(Rules[r], AllOps[i]) : c <= d
EveryCategoryUsed == part = 0 => {CatOf(row, i) : i \in 1..Len(Nums)} = {CatsOf(Rules[row])[k] : k \in 1..Len(CatsOf(Rules[row]))}
\* the published gettext formula numbers the categories that integers have
Used == {CatOf(row, i) : i \in 1..Len(Ints)}
Rank(used, c) == Cardinality({d \in used : d < c})
SameAsGettext ==
  part = 0 => LET used == Used
                  common == {l \in Table[row].l : P!RowOf(l) # 0}
                  formulas == {P!Rules[P!RowOf(l)] : l \in common}
              IN \A f \in formulas : /\ Int10(f.np) = Cardinality(used)
                                     /\ \A i \in 1..Len(Ints) : P!Eval(f.n, Of10(Ints[i])) = Of10(Rank(used, CatOf(row, i)))
CaseOut == part > 0 => \A l \in Table[row].l :
  Emit([op |-> "cl.known", in |-> [lang |-> l, nums |-> [k \in 1..(LastOf - (part - 1) * Chunk) |-> Nums[(part - 1) * Chunk + k]]],
        exp |-> <<[found |-> l # "und", cats |-> CatsOf(Rules[IF l = "und" THEN English ELSE row]),
                   vals |-> [k \in 1..(LastOf - (part - 1) * Chunk) |-> [v |-> CatOf(IF l = "und" THEN English ELSE row, (part - 1) * Chunk + k)]]]>>])
=============================================================================
