--------------------------- MODULE ParserContract ---------------------------
(* What an observed reading (Parsers.tla) has to be.                         *)
EXTENDS Naturals

\* One parser's answer: [val, err, bad, uses, kb]: whether there is a value or an error, what went wrong
\* when the value was used, how often it was used, and how much memory the parser asked for.
\* Formulas of plural forms and rules are limited in length by the parser, within it they may cost what they like.
Allowance(e, len) == IF e \in {"pl", "plast", "cl", "clast"} THEN 131072 + len \div 8 ELSE 1024 + len
Fine(o, len) == /\ o.val # o.err
                /\ o.bad = ""
                /\ (o.val => o.uses > 0)
                /\ o.kb <= Allowance(o.e, len)

\* Growth: a document with n2 instead of n1 repetitions of a part costs at most in proportion more.
Proportional(g) == LET ratio == (g.len2 \div (g.len1 + 1)) + 1
                   IN g.val # g.err /\ g.kb2 <= 8192 + 3 * ratio * g.kb1 /\ g.ms2 <= 2000 + 3 * ratio * g.ms1
=============================================================================
