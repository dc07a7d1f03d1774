------------------------------- MODULE MoFile --------------------------------
(* MO files (internal/mo/parser.go): which messages an image of bytes holds.  *)
(* Zones as in PoFile: ok, bad (must be rejected), loose (rejected or read as  *)
(* said) and any (contradictory content).                                     *)
EXTENDS PoHeader

\* 32-bit numbers; everything that cannot be inside of a file is "far"
Far == 134217728
Byte(img, at) == img[at + 1]
Word(img, at, big) ==
  LET b(k) == Byte(img, at + (IF big THEN k ELSE 3 - k))       \* b(0) is the highest
  IN IF b(0) >= 8 THEN Far ELSE ((b(0) * 256 + b(1)) * 256 + b(2)) * 256 + b(3)
Half(img, at, big) == IF big THEN Byte(img, at) * 256 + Byte(img, at + 1) ELSE Byte(img, at + 1) * 256 + Byte(img, at)
Little == <<222, 18, 4, 149>>
Big    == <<149, 4, 18, 222>>
Slice(img, at, len) == SubSeq(img, at + 1, at + len)

AsciiSpace(c) == c \in (9..13) \cup {32}
FieldsOf(text) ==
  LET step(acc, l) == LET p == IndexOf(l, COLON)
                      IN IF p = 0 THEN acc ELSE SetField(acc, TrimBy(SubSeq(l, 1, p - 1), AsciiSpace), TrimBy(From(l, p + 1), AsciiSpace))
  IN {f \in ToSet(FoldLeft(step, <<>>, Lines(text))) : f.v # <<>>}

Nul(c) == c = 0
Message(id, str) ==
  LET e == IndexOf(id, 4)
      ctx == IF e = 0 THEN <<>> ELSE SubSeq(id, 1, e - 1)
      rest == IF e = 0 THEN id ELSE From(id, e + 1)
      n == IndexOf(rest, 0)
      parts == SplitBy(str, Nul)
  IN IF n = 0 THEN [ctx |-> ctx, id |-> rest, pl |-> <<>>, str_set |-> {[idx |-> 0, v |-> str]}]
     ELSE [ctx |-> ctx, id |-> SubSeq(rest, 1, n - 1), pl |-> From(rest, n + 1),
           str_set |-> {[idx |-> i - 1, v |-> parts[i]] : i \in 1..Len(parts)}]

BadFile == [z |-> "bad", res |-> [err |-> TRUE]]
ParseImage(img) ==
  LET size == Len(img)
      magic == SubSeq(img, 1, 4)
      big == magic = Big
      count == Word(img, 8, big)
      idAt == Word(img, 12, big)
      strAt == Word(img, 16, big)
      inside(at, len) == at + len <= size
      idLen(i) == Word(img, idAt + 8 * i, big)
      idOff(i) == Word(img, idAt + 8 * i + 4, big)
      strLen(i) == Word(img, strAt + 8 * i, big)
      strOff(i) == Word(img, strAt + 8 * i + 4, big)
      id(i) == Slice(img, idOff(i), idLen(i))
      str(i) == Slice(img, strOff(i), strLen(i))
      All == 0..(count - 1)
      \* an empty text or table has no bytes outside of the file
      reach(at, len) == len = 0 \/ inside(at, len)
      heads == {i \in All : idLen(i) = 0}
      msg == [i \in All \ heads |-> Message(id(i), str(i))]
      dup == (Cardinality(heads) > 1)
             \/ \E i, j \in All \ heads : i # j /\ msg[i].ctx = msg[j].ctx /\ msg[i].id = msg[j].id
      kept == {msg[i] : i \in {k \in All \ heads : msg[k].id # <<>>}}
      res == [err |-> FALSE, fields_set |-> UNION {FieldsOf(str(i)) : i \in heads}, messages_set |-> kept,
              served_set |-> {[ctx |-> m.ctx, id |-> m.id, str_set |-> m.str_set] : m \in kept}]
  IN IF size < 28 \/ magic \notin {Little, Big} THEN BadFile
     ELSE IF Half(img, 4, big) > 1 \/ Half(img, 6, big) > 1 THEN BadFile
     ELSE IF count > size \/ ~reach(idAt, 8 * count) \/ ~reach(strAt, 8 * count) THEN BadFile
     ELSE IF \E i \in All : ~reach(idOff(i), idLen(i)) \/ ~reach(strOff(i), strLen(i)) THEN BadFile
     ELSE IF dup THEN [z |-> "any"]
     ELSE [z |-> IF (\E i \in All \ heads : msg[i].id = <<>>) \/ idAt > size \/ strAt > size
                    \/ (\E i \in All : idOff(i) > size \/ strOff(i) > size) THEN "loose" ELSE "ok",
           res |-> res]
Outcomes(p) == IF p.z = "bad" THEN {[err |-> TRUE]} ELSE IF p.z = "ok" THEN {p.res} ELSE {[err |-> TRUE], p.res}
=============================================================================
