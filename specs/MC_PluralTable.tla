--------------------------- MODULE MC_PluralTable ----------------------------
(* Every built-in language with all small numbers and multiples of powers.    *)
EXTENDS PluralTable, Emit
CONSTANTS Upto
Chunk == 100
Spec1 == <<0, 1, 2, 3, 11, 40, 100>>
\* numbers near multiples of the powers of ten that formulas use
Large == LET bases == <<1000, 2000, 20000, 40000, 60000, 80000, 100000, 110000, 120000, 140000, 1000000, 1100000, 2000000, 3040000, 10000000, 1000100000>>
         IN [k \in 1..(Len(bases) * Len(Spec1)) |-> bases[1 + ((k - 1) \div Len(Spec1))] + Spec1[1 + ((k - 1) % Len(Spec1))]]
AllNs == [i \in 1..(Upto + 1) |-> i - 1] \o Large \o <<2147483647>>
Chunks == (Len(AllNs) + Chunk - 1) \div Chunk
Langs == UNION {Table[i].l : i \in 1..Len(Table)}

VARIABLES lang, part
Init == lang \in Langs /\ part = 0
Next == part < Chunks /\ part' = part + 1 /\ UNCHANGED lang
Row == RowOf(lang)
Nums == SubSeq(AllNs, (part - 1) * Chunk + 1, IF part * Chunk < Len(AllNs) THEN part * Chunk ELSE Len(AllNs))
Form(n) == Eval(Rules[Row].n, Of10(n))
Accepted == Rules[Row].z = "ok"
OneRow == Cardinality({i \in 1..Len(Table) : lang \in Table[i].l}) = 1
BelowCount == part > 0 => \A i \in 1..Len(Nums) : Lt10(Form(Nums[i]), Rules[Row].np)
EveryFormUsed == part = 0 => {Form(AllNs[i]) : i \in 1..Len(AllNs)} = {Of10(k) : k \in 0..(Int10(Rules[Row].np) - 1)}
CaseOut == part > 0 => Emit([op |-> "pl.known", in |-> [lang |-> lang, nums |-> [i \in 1..Len(Nums) |-> [t |-> "int64", s |-> CodesOf10(Of10(Nums[i]))]]],
   exp |-> <<[found |-> TRUE, vals |-> [i \in 1..Len(Nums) |-> [v |-> Form(Nums[i])]]]>>])
=============================================================================
