---------------------------- MODULE JsonHistory -----------------------------
(* Life of a JSON catalog: it is built from the caller's messages, filled,    *)
(* encoded, decoded again and asked, while the caller changes its messages    *)
(* and those that it was handed out. Nothing is shared between the three.     *)
(*                                                                            *)
(* state: ins  the caller's messages, [key, nil, m]                           *)
(*        cat  the messages of the catalog, [key, m]                          *)
(*        outs the message maps that were handed out, each as cat             *)
EXTENDS JsonCatalog

Nothing == [k |-> "none"]
\* messages with the given key replaced or added, those of lists with distinct keys
PutMsg(ms, x) == SelectSeq(ms, LAMBDA y : y.key # x.key) \o <<x>>
ByKey(ins) == SelectSeq([i \in 1..Len(ins) |-> [x |-> ins[i], last |-> \A j \in (i + 1)..Len(ins) : ins[j].key # ins[i].key]], LAMBDA y : y.last)
Build(cats, ins) ==
  LET ms == ByKey(ins)
  IN IF \E i \in 1..Len(ms) : ms[i].x.nil \/ ~ValidMsg(ms[i].x.key, ms[i].x.m) THEN [err |-> TRUE, cat |-> <<>>]
     ELSE [err |-> FALSE, cat |-> [i \in 1..Len(ms) |-> [key |-> ms[i].x.key, m |-> NormMsg(cats, ms[i].x.m)]]]

(* ---- encoding ---- *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
Sorted(ms) == SortSeq(ms, LAMBDA a, b : LexLess(a.key, b.key))
\* the fields of each message in the order they are written
Encoded(ms) == [i \in 1..Len(ms) |-> ShownMsg(Sorted(ms)[i])]
EncodedMsg(m) == [comment |-> m.comment, ctx |-> m.ctx, tr |-> IF m.tr = <<>> THEN <<[c |-> Other, s |-> <<>>]>> ELSE m.tr]
\* decoding what was encoded
Decoded(cats, ms) == [i \in 1..Len(ms) |-> [ms[i] EXCEPT !.m = NormMsg(cats, @)]]

(* ---- steps: [k, i, j, key, f, c, s, q, ms]; results as a set of possibilities ---- *)
SetField(m, f, s) == IF f = "comment" THEN [m EXCEPT !.comment = s] ELSE [m EXCEPT !.ctx = s]
OnOut(st, j, key, Op(_)) ==
  [st EXCEPT !.outs[j] = [i \in 1..Len(@) |-> IF @[i].key = key THEN [@[i] EXCEPT !.m = Op(@)] ELSE @[i]]]
Usable(st, x) ==
  /\ x.k \in {"setin", "trin", "delin", "nilin", "apply", "clone", "msgenc"} => x.i \in 1..Len(st.ins) /\ ~st.ins[x.i].nil
  /\ x.k \in {"setout", "trout", "delout", "rmout"} => x.j \in 1..Len(st.outs)
Do(st, x, lang, domain, rules) ==
  LET cats == CatsOf(rules)
      only(s) == [st |-> s, res |-> {Nothing}]
      ans(s, r) == [st |-> s, res |-> r]
  IN IF ~Usable(st, x) THEN only(st)
     ELSE CASE x.k = "setin" -> only([st EXCEPT !.ins[x.i].m = SetField(@, x.f, x.s)])
            [] x.k = "trin" -> only([st EXCEPT !.ins[x.i].m.tr = PutCat(@, x.c, x.s)])
            [] x.k = "delin" -> only([st EXCEPT !.ins[x.i].m.tr = Without(@, x.c)])
            [] x.k = "nilin" -> only([st EXCEPT !.ins[x.i].m.tr = <<>>])
            [] x.k = "apply" -> only(IF st.ins[x.i].m.tr = <<>> THEN st ELSE [st EXCEPT !.ins[x.i].m = NormMsg(cats, @)])
            [] x.k = "clone" -> only([st EXCEPT !.ins = Append(@, [key |-> x.key, nil |-> FALSE, m |-> st.ins[x.i].m])])
            [] x.k = "msgenc" -> ans(st, {EncodedMsg(st.ins[x.i].m)})
            [] x.k = "get" -> only([st EXCEPT !.outs = Append(@, st.cat)])
            [] x.k = "setout" -> only(OnOut(st, x.j, x.key, LAMBDA m : SetField(m, x.f, x.s)))
            [] x.k = "trout" -> only(OnOut(st, x.j, x.key, LAMBDA m : [m EXCEPT !.tr = PutCat(@, x.c, x.s)]))
            [] x.k = "delout" -> only(OnOut(st, x.j, x.key, LAMBDA m : [m EXCEPT !.tr = Without(@, x.c)]))
            [] x.k = "rmout" -> only([st EXCEPT !.outs[x.j] = SelectSeq(@, LAMBDA y : y.key # x.key)])
            [] x.k = "enc" -> ans(st, {Encoded(st.cat)})
            [] x.k = "wfail" -> ans(st, {[err |-> TRUE]})
            [] x.k = "dec" -> IF st.cat = <<>> THEN ans(st, {[err |-> TRUE]})
                              ELSE ans([st EXCEPT !.cat = Decoded(cats, @)], {[err |-> FALSE]})
            [] x.k = "fill" -> LET new == Build(cats, x.ms)
                               IN IF new.err \/ x.ms = <<>> THEN ans(st, {[err |-> TRUE]})
                                  ELSE ans([st EXCEPT !.cat = FoldLeft(PutMsg, @, new.cat)], {[err |-> FALSE]})
            [] x.k = "build" -> LET new == Build(cats, st.ins)
                                IN IF new.err THEN ans(st, {[err |-> TRUE]}) ELSE ans([st EXCEPT !.cat = new.cat], {[err |-> FALSE]})
            [] x.k = "look" -> ans(st, Ask(lang, domain, rules, st.cat, x.q))
Start(cats, ins) == [ins |-> ins, cat |-> Build(cats, ins).cat, outs |-> <<>>]
\* state and possible results after all steps
Run(st, steps, lang, domain, rules) ==
  FoldLeft(LAMBDA a, x : LET d == Do(a.st, x, lang, domain, rules) IN [st |-> d.st, res |-> Append(a.res, d.res)],
           [st |-> st, res |-> <<>>], steps)
\* as recorded
ShownIn(x) == [key |-> x.key, nil |-> x.nil, comment |-> x.m.comment, ctx |-> x.m.ctx, tr |-> x.m.tr]
Final(st) == [ins |-> [i \in 1..Len(st.ins) |-> ShownIn(st.ins[i])], cat |-> Encoded(st.cat),
              outs |-> [j \in 1..Len(st.outs) |-> Encoded(st.outs[j])]]
=============================================================================
