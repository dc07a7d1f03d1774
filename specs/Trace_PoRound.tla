---------------------------- MODULE Trace_PoRound ----------------------------
(* Recorded encodings of PO files (catalog/po/encoder.go): the text written   *)
(* must be PO syntax (PoFile, zone ok) and hold the content given, and the    *)
(* content the parser read back must be the same.                             *)
EXTENDS PoFile, Emit
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ch
K == 32
Init == ch \in 1..K /\ l = ch
Next == l + K <= Len(Trace) /\ l' = l + K /\ ch' = ch

BagOf(s) == [x \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

\* comment texts keep their lines, without the white space around them; when
\* wrapped, they keep their words
CommentLines(t) == FoldLeft(LAMBDA acc, x : AddLine(acc, Trim(x)), <<>>, Lines(t))
NormText(t, wrap) == IF wrap THEN Fields(t) ELSE <<CommentLines(t)>>
NormLine(n) == IF n = <<48>> \/ (n # <<>> /\ n[1] = 45) THEN <<45, 49>> ELSE n
NormRefs(refs) == BagOf([i \in 1..Len(refs) |-> [path |-> refs[i].path, line |-> NormLine(refs[i].line)]])
NormCom(c, opt) == [tr |-> NormText(c.tr, opt.width > 0), ex |-> NormText(c.ex, opt.width > 0),
                    refs |-> IF opt.refs THEN NormRefs(c.refs) ELSE NormRefs(<<>>), flags |-> BagOf(c.flags)]
NormMsg(m, opt) == [ctx |-> m.ctx, id |-> m.id, pl |-> m.pl, str |-> {x \in m.str_set : x.v # <<>>}, com |-> NormCom(m.com, opt)]
NormHead(h, opt) == [fields |-> {f \in h.fields_set : f.v # <<>>}, com |-> NormCom(h.com, opt)]
NormFile(h, ms, opt) == [header |-> NormHead(h, opt), messages |-> {NormMsg(m, opt) : m \in ms}]

HeaderWritten(in) == in.opt.header /\ (in.opt.emptyheader \/ \E i \in 1..Len(in.header.fields_set) : in.header.fields_set[i].v # <<>>)
AsSet(m) == [m EXCEPT !.str_set = ToSet(@)]
Messages(seq) == {AsSet(seq[i]) : i \in 1..Len(seq)}
Expected(in) == NormFile(IF HeaderWritten(in) THEN [in.header EXCEPT !.fields_set = ToSet(@)] ELSE NoHeader, Messages(in.messages), in.opt)

Accept(e) ==
  LET read == ParseText(e.out.text, FALSE)
      exp == Expected(e.in)
  IN /\ e.out.same
     /\ ~e.out.file.err
     /\ NormFile([e.out.file.header EXCEPT !.fields_set = ToSet(@)], Messages(e.out.file.messages_set), e.in.opt) = exp
     /\ read.z = "ok"
     /\ NormFile(read.res.header, read.res.messages_set, e.in.opt) = exp
Judge == l <= Len(Trace) => LET e == Trace[l] IN Accept(e) \/ Emit([id |-> e.id, exp |-> <<Expected(e.in)>>])
=============================================================================
