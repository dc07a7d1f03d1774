----------------------------- MODULE MC_PoString -----------------------------
(* Every quoted body over a small alphabet up to MaxLen, read one character   *)
(* at a time; Kind "text": every text, quoted by a reference encoder.         *)
EXTENDS PoString, Emit
CONSTANTS MaxLen, Kind

Bodies == <<BACKSLASH, QUOTE, 110, 120, 49, 70, 113, SP, 233>>
Texts  == <<BACKSLASH, QUOTE, LF, 110, 120, 49, 1, TAB, 233>>
Alphabet == IF Kind = "body" THEN Bodies ELSE Texts

VARIABLES s, st
Init == s = <<>> /\ st = [out |-> <<>>, mode |-> "text", held |-> 0]
Next == /\ Len(s) < MaxLen
        /\ \E i \in 1..Len(Alphabet) : s' = Append(s, Alphabet[i]) /\ st' = DecodeStep(st, Alphabet[i])

HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
Esc(c) == IF c \in {QUOTE, BACKSLASH} THEN <<BACKSLASH, c>>
          ELSE IF c = LF THEN <<BACKSLASH, 110>>
          ELSE IF c < 32 THEN <<BACKSLASH, 120, HexDigit(c \div 16), HexDigit(c % 16)>>
          ELSE <<c>>
EncBody(t) == FoldLeft(LAMBDA acc, c : acc \o Esc(c), <<>>, t)
EncOne(t) == <<QUOTE>> \o EncBody(t) \o <<QUOTE>>
\* one line per line of the text
EncMany(t) == JoinWith([i \in 1..Len(Lines(t)) |->
                  EncOne(Lines(t)[i] \o (IF i < Len(Lines(t)) THEN <<LF>> ELSE <<>>))], <<LF>>)

\* quoting is possible: both encoders are faithful to every text
Lossless == Kind = "text" => Faithful(s, EncOne(s)) /\ Faithful(s, EncMany(s))
\* a well-formed body without backslashes means itself
Literal == (Kind = "body" /\ BACKSLASH \notin ToSet(s)) => DecodeBody(s) = s
\* decoding never grows a text
Shrinks == Kind = "body" => Len(DecodeEnd(st)) <= Len(s)
Incremental == DecodeEnd(st) = DecodeBody(s)
CaseOut == (Kind = "body") => Emit([op |-> "po.decode", in |-> [text |-> <<QUOTE>> \o s \o <<QUOTE>>], exp |-> <<DecodeLine(<<QUOTE>> \o s \o <<QUOTE>>)>>])
=============================================================================
