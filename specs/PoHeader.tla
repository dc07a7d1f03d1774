------------------------------ MODULE PoHeader -------------------------------
(* Header fields of PO and MO files (catalog/po/file.go Header).              *)
EXTENDS Text
KnownFields == LET names == <<"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date",
                              "Last-Translator", "Language-Team", "Language", "MIME-Version", "Content-Type",
                              "Content-Transfer-Encoding", "Plural-Forms", "X-Generator">>
               IN {Codes(names[i]) : i \in 1..Len(names)}
SameName(a, b) == UpperAll(a) = UpperAll(b)
\* setting a header field: names are compared without regard to case, the last value wins
SetField(fields, key, val) ==
  LET known == {k \in KnownFields : SameName(k, key)}
      old == SelectInSeq(fields, LAMBDA f : SameName(f.k, key))
      name == IF known # {} THEN CHOOSE k \in known : TRUE ELSE key
  IN IF old = 0 THEN Append(fields, [k |-> name, v |-> val]) ELSE [fields EXCEPT ![old].v = val]
=============================================================================
