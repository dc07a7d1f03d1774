----------------------------- MODULE MC_MoFile -------------------------------
(* Small MO images in both byte orders and several layouts, with every        *)
(* truncation and corruptions of every byte.                                  *)
EXTENDS MoFile, Emit
CONSTANTS Depth

Z == <<0>>
E == <<4>>
Contents == <<
  << >>,
  << <<Codes("a"), Codes("x")>> >>,
  << << <<>>, Codes("Language: de") \o <<LF>> \o Codes("X-a:b") \o <<LF>>>>, <<Codes("a"), <<>>>> >>,
  << <<Codes("c") \o E \o Codes("a"), Codes("y")>>, <<Codes("a") \o Z \o Codes("as"), Codes("u") \o Z \o Codes("v") \o Z>> >>,
  << <<Codes("c") \o E \o Codes("a") \o Z \o Codes("d") \o E \o Codes("e"), Codes("x") \o Z \o Codes("y")>>, <<Codes("ab"), Codes("b")>>, <<Codes("b"), Codes("p") \o Z \o Codes("q")>> >>,
  << <<E \o Codes("a"), Codes("a")>>, <<E, Codes("n")>> >> >>
Layouts == {"std", "first", "shared", "gaps"}

Bytes4(v, big) == IF big THEN <<0, 0, v \div 256, v % 256>> ELSE <<v % 256, v \div 256, 0, 0>>
Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
\* the position of text t in blob
Find(blob, t) == CHOOSE p \in 0..(Len(blob) - Len(t)) : Slice(blob, p, Len(t)) = t /\ \A q \in 0..(p - 1) : Slice(blob, q, Len(t)) # t
Texts(pairs) == [i \in 1..(2 * Len(pairs)) |-> IF i <= Len(pairs) THEN pairs[i][1] ELSE pairs[i - Len(pairs)][2]]
End(layout) == IF layout = "gaps" THEN <<>> ELSE Z
Blob(pairs, layout) == Flat([i \in 1..(2 * Len(pairs)) |-> Texts(pairs)[i] \o End(layout)])
Offset(pairs, layout, i) ==
  IF layout = "shared" THEN Find(Blob(pairs, layout), Texts(pairs)[i])
  ELSE Len(Flat([k \in 1..(i - 1) |-> Texts(pairs)[k] \o End(layout)]))
Image(pairs, layout, big) ==
  LET n == Len(pairs)
      gap == IF layout = "gaps" THEN 3 ELSE 0
      blob == Blob(pairs, layout)
      blobAt == IF layout = "first" THEN 28 ELSE 28 + 16 * n + 2 * gap
      idAt == IF layout = "first" THEN 28 + Len(blob) ELSE 28 + gap
      strAt == IF layout = "gaps" THEN idAt + 8 * n + 1 ELSE idAt + 8 * n
      fill(k) == [i \in 1..k |-> 7]
      entry(i) == Bytes4(Len(Texts(pairs)[i]), big) \o Bytes4(blobAt + Offset(pairs, layout, i), big)
      ids == Flat([i \in 1..n |-> entry(i)])
      strs == Flat([i \in 1..n |-> entry(n + i)])
      head == (IF big THEN Big ELSE Little) \o Bytes4(0, big) \o Bytes4(n, big) \o Bytes4(idAt, big) \o Bytes4(strAt, big) \o Bytes4(0, big) \o Bytes4(28, big)
  IN IF layout = "first" THEN head \o blob \o ids \o strs
     ELSE IF layout = "gaps" THEN head \o fill(3) \o ids \o fill(1) \o strs \o fill(2) \o blob
     ELSE head \o ids \o strs \o blob

VARIABLES c, image, mut
Init == \E k \in 1..Len(Contents), lay \in Layouts, big \in BOOLEAN :
          c = [k |-> k, lay |-> lay, big |-> big] /\ image = Image(Contents[k], lay, big) /\ mut = "none"
Values(b, v) == IF b <= 28 \/ Depth > 1 THEN {0, 1, 2, 255, (v + 1) % 256, (v + 255) % 256} ELSE {255, (v + 1) % 256}
Next == /\ mut = "none" /\ UNCHANGED c
        /\ \/ \E n \in 0..(Len(image) - 1) : image' = SubSeq(image, 1, n) /\ mut' = "cut"
           \/ \E i \in 1..Len(image) : \E v \in Values(i, image[i]) : image' = [image EXCEPT ![i] = v] /\ mut' = "byte"

Parsed == ParseImage(image)
Expected(pairs) == {Message(pairs[i][1], pairs[i][2]) : i \in {k \in 1..Len(pairs) : pairs[k][1] # <<>>}}
\* an undamaged image holds exactly the content it was made of
Exact == mut = "none" => Parsed.z \in {"ok", "loose"} /\ Parsed.res.messages_set = {m \in Expected(Contents[c.k]) : m.id # <<>>}
\* a truncated image is rejected or holds exactly the same
CutSafe == mut = "cut" => \/ Parsed.z = "bad"
                          \/ Parsed.res.messages_set = {m \in Expected(Contents[c.k]) : m.id # <<>>}
CaseOut == Parsed.z = "any" \/ Emit([op |-> "mo.parse", in |-> [image |-> image, chunk |-> Len(image) % 3], exp |-> Outcomes(Parsed)])
=============================================================================
