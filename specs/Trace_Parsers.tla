--------------------------- MODULE Trace_Parsers ----------------------------
(* Recorded readings of documents, and of documents growing in size.          *)
EXTENDS ParserContract, Sequences, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
K == 32
VARIABLE i
Init == i \in 1..(IF Len(Trace) < K THEN Len(Trace) ELSE K)
Next == i + K <= Len(Trace) /\ i' = i + K

Good(e) == IF e.op = "rb.grow" THEN \A j \in 1..Len(e.out.runs) : Proportional(e.out.runs[j])
           ELSE Len(e.out.runs) > 0 /\ \A j \in 1..Len(e.out.runs) : Fine(e.out.runs[j], e.out.len)
\* Headers with many fields of their own: each is compared with all before it.
FieldsOfTheirOwn(e) == e.op = "rb.grow" /\ e.in.unit \in {"\"X#: b\\n\"<nl>", "X#: b<nl>"}
Judge == Good(Trace[i]) \/ Emit([id |-> Trace[i].id, ok |-> FALSE, known |-> IF FieldsOfTheirOwn(Trace[i]) THEN "header-fields" ELSE "",
                                 exp |-> <<"a value or an error, in proportion to the size, and a usable value">>])
=============================================================================
