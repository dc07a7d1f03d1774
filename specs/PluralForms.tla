----------------------------- MODULE PluralForms ----------------------------
(* Plural-Forms headers: their grammar and their meaning in C over natural    *)
(* numbers (catalog/poplural).                                                *)
EXTENDS Decimal

(* ---- tokens ---- *)
\* A token is [t |-> type, d |-> digits, at |-> 0]; types are single strings.
Single == [c \in {37, 63, 58, 59, 40, 41} |-> CASE c = 37 -> "%" [] c = 63 -> "?" [] c = 58 -> ":" [] c = 59 -> ";" [] c = 40 -> "(" [] c = 41 -> ")"]
Pairable == {38, 33, 124, 60, 62, 61}                        \* & ! | < > =
PairName(a, b) == CASE a = 38 /\ b = 38 -> "&&" [] a = 124 /\ b = 124 -> "||" [] a = 61 /\ b = 61 -> "==" [] a = 33 /\ b = 61 -> "!="
                    [] a = 60 /\ b = 61 -> "<=" [] a = 62 /\ b = 61 -> ">=" [] OTHER -> ""
OneName(a) == CASE a = 60 -> "<" [] a = 62 -> ">" [] a = 61 -> "=" [] a = 33 -> "foreign" [] OTHER -> "bad"
Letter(c) == c \in 65..90 \/ c \in 97..122
WordName(w) == LET l == LowerAll(w)
               IN IF l = Codes("n") THEN "n" ELSE IF l = Codes("plural") THEN "plural" ELSE IF l = Codes("nplurals") THEN "nplurals" ELSE "bad"
Tok(t) == [t |-> t, d |-> <<>>, loose |-> FALSE]
Finish(st) ==
  CASE st.k = "none" -> st.toks
    [] st.k = "num" -> Append(st.toks, [t |-> "num", d |-> Nat10OfCodes(st.cur), loose |-> Len(st.cur) > 1 /\ st.cur[1] = 48])
    [] st.k = "word" -> Append(st.toks, [t |-> WordName(st.cur), d |-> <<>>, loose |-> LowerAll(st.cur) # st.cur])
    [] st.k = "sym" -> Append(st.toks, Tok(OneName(st.cur[1])))
LexStep(st, c) ==
  LET kind == IF Letter(c) THEN "word" ELSE IF IsDigit(c) THEN "num" ELSE "other"
      fresh == Finish(st)
      begin == IF kind # "other" THEN [toks |-> fresh, k |-> kind, cur |-> <<c>>]
               ELSE IF c \in Pairable THEN [toks |-> fresh, k |-> "sym", cur |-> <<c>>]
               ELSE IF c \in {32, 9, 10} THEN [toks |-> fresh, k |-> "none", cur |-> <<>>]
               ELSE IF c \in {13, 11, 12} THEN [toks |-> Append(fresh, [t |-> "space", d |-> <<>>, loose |-> TRUE]), k |-> "none", cur |-> <<>>]
               ELSE IF c \in DOMAIN Single THEN [toks |-> Append(fresh, Tok(Single[c])), k |-> "none", cur |-> <<>>]
               ELSE [toks |-> Append(fresh, Tok(IF c \in {42, 43, 45, 47} THEN "foreign" ELSE "bad")), k |-> "none", cur |-> <<>>]
  IN IF st.k = kind \/ (st.k = "word" /\ c = 95) THEN [st EXCEPT !.cur = Append(@, c)]
     ELSE IF st.k = "num" /\ c = 95 THEN [toks |-> Append(fresh, Tok("bad")), k |-> "none", cur |-> <<>>]
     ELSE IF st.k = "sym" /\ PairName(st.cur[1], c) # "" THEN [toks |-> Append(st.toks, Tok(PairName(st.cur[1], c))), k |-> "none", cur |-> <<>>]
     ELSE begin
Lex(s) == Finish(FoldLeft(LexStep, [toks |-> <<>>, k |-> "none", cur |-> <<>>], s))

(* ---- grammar ---- *)
Levels == <<{"||"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"%"}>>
NoParse == [ok |-> FALSE]
Op(o, x, y) == [k |-> "op", op |-> o, x |-> x, y |-> y]
If(c, a, b) == [k |-> "if", c |-> c, a |-> a, b |-> b]
Num(d) == [k |-> "num", d |-> d]
Var == [k |-> "n"]

RECURSIVE PExpr(_, _), PLevel(_, _, _), PRest(_, _, _, _)
At(t, p) == IF p <= Len(t) THEN t[p].t ELSE "end"
Parsed(n, p, chain) == [ok |-> TRUE, n |-> n, p |-> p, chain |-> chain]
PExpr(t, p) ==
  LET c == PLevel(t, p, 1)
      a == PExpr(t, c.p + 1)
      b == PExpr(t, a.p + 1)
  IN IF ~c.ok \/ At(t, c.p) # "?" THEN c
     ELSE IF ~a.ok \/ At(t, a.p) # ":" \/ ~b.ok THEN NoParse
     ELSE Parsed(If(c.n, a.n, b.n), b.p, c.chain \/ a.chain \/ b.chain)
PLevel(t, p, l) ==
  IF l <= Len(Levels)
  THEN LET x == PLevel(t, p, l + 1) IN IF ~x.ok THEN x ELSE PRest(t, x, l, 0)
  ELSE CASE At(t, p) = "n" -> Parsed(Var, p + 1, FALSE)
         [] At(t, p) = "num" -> Parsed(Num(t[p].d), p + 1, FALSE)
         [] At(t, p) = "(" -> LET e == PExpr(t, p + 1)
                              IN IF e.ok /\ At(t, e.p) = ")" THEN [e EXCEPT !.p = @ + 1] ELSE NoParse
         [] OTHER -> NoParse
\* operators of one level associate to the left; chain: more than one comparison or % in a row
PRest(t, x, l, count) ==
  IF At(t, x.p) \notin Levels[l] THEN x
  ELSE LET y == PLevel(t, x.p + 1, l + 1)
       IN IF ~y.ok THEN y
          ELSE PRest(t, Parsed(Op(At(t, x.p), x.n, y.n), y.p, x.chain \/ y.chain \/ (count > 0 /\ l >= 3)), l, count + 1)

\* zones: ok, loose (may be rejected), bad (must be rejected), any (C operators that are not supported)
ParseHeader(s) ==
  LET all == Lex(s)
      t == SelectSeq(all, LAMBDA x : x.t # "space")
      head == Len(t) >= 6 /\ At(t, 1) = "nplurals" /\ At(t, 2) = "=" /\ At(t, 3) = "num" /\ At(t, 4) = ";" /\ At(t, 5) = "plural" /\ At(t, 6) = "="
      e == PExpr(t, 7)
      big(x) == x.t = "num" /\ Lt10(MaxInt64, x.d)
      loose == Len(t) # Len(all) \/ e.chain \/ (\E i \in 1..Len(t) : t[i].loose \/ big(t[i])) \/ t[3].d = Zero10 \/ At(t, e.p) = "end"
  IN IF \E i \in 1..Len(t) : t[i].t = "foreign" THEN [z |-> "any"]
     ELSE IF ~head THEN [z |-> "bad"]
     ELSE IF ~e.ok THEN [z |-> "bad"]
     ELSE IF ~(At(t, e.p) = ";" /\ e.p = Len(t)) /\ At(t, e.p) # "end" THEN [z |-> "bad"]
     ELSE [z |-> IF loose THEN "loose" ELSE "ok", np |-> t[3].d, n |-> e.n]

(* ---- meaning ---- *)
Undefined == <<>>                                     \* the value after a division by zero
Truth(b) == IF b THEN One10 ELSE Zero10
Compare(o, a, b) == CASE o = "==" -> a = b [] o = "!=" -> a # b [] o = "<" -> Lt10(a, b) [] o = ">" -> Lt10(b, a)
                      [] o = "<=" -> Le10(a, b) [] o = ">=" -> Le10(b, a)
RECURSIVE Eval(_, _)
Eval(e, n) ==
  CASE e.k = "n" -> n
    [] e.k = "num" -> e.d
    [] e.k = "if" -> LET c == Eval(e.c, n) IN IF c = Undefined THEN c ELSE IF c # Zero10 THEN Eval(e.a, n) ELSE Eval(e.b, n)
    [] e.k = "op" /\ e.op = "||" -> LET x == Eval(e.x, n)
         IN IF x = Undefined THEN x ELSE IF x # Zero10 THEN One10
            ELSE LET y == Eval(e.y, n) IN IF y = Undefined THEN y ELSE Truth(y # Zero10)
    [] e.k = "op" /\ e.op = "&&" -> LET x == Eval(e.x, n)
         IN IF x = Undefined THEN x ELSE IF x = Zero10 THEN Zero10
            ELSE LET y == Eval(e.y, n) IN IF y = Undefined THEN y ELSE Truth(y # Zero10)
    [] OTHER -> LET x == Eval(e.x, n)
                    y == Eval(e.y, n)
                IN IF x = Undefined \/ y = Undefined THEN Undefined
                   ELSE IF e.op = "%" THEN IF y = Zero10 THEN Undefined ELSE Mod10(x, y)
                   ELSE Truth(Compare(e.op, x, y))

(* ---- numbers ---- *)
\* The number carried by a Go value [t |-> type, s |-> text]: its rounded magnitude, an error, or out of range.
NoNumber == {"nil", "nilptr", "nilpp", "bool", "struct", "slice"}
Magnitude(v) ==
  LET d == DecimalOf(v.s)
  IN IF v.t \in NoNumber \/ ~d.ok THEN [r |-> "err"]
     ELSE IF d.exk = 99 THEN [r |-> "err"]
     ELSE LET m == HalfEven(Shift(d, d.ex)) IN [r |-> IF Lt10(MaxInt64, m) THEN "far" ELSE "ok", n |-> m]
ErrForm == [e |-> TRUE]
\* the allowed forms of a value under an expression; {} if everything is allowed
FormsOf(e, v) ==
  LET m == Magnitude(v)
      f == Eval(e, m.n)
  IN IF m.r = "err" THEN {ErrForm}
     ELSE IF f = Undefined THEN {}
     ELSE {[v |-> f]} \cup (IF m.r = "far" THEN {ErrForm} ELSE {})
FormOK(e, v, got) == LET f == FormsOf(e, v) IN f = {} \/ got \in f
=============================================================================
