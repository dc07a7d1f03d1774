------------------------------- MODULE PoFile -------------------------------
(* Reading PO files (catalog/po scanner.go, parser.go) as a machine over     *)
(* lines.  Three zones:                                                      *)
(*   ok    the text so far is PO syntax: it must be read exactly             *)
(*   loose unusual but unambiguous: it is read exactly or rejected           *)
(*   bad   not PO syntax, or an ambiguity: it must be rejected               *)
EXTENDS PoString, PoHeader

K_ctx == Codes("msgctxt")
K_id  == Codes("msgid")
K_pl  == Codes("msgid_plural")
K_str == Codes("msgstr")

Bad == [k |-> "bad"]
Worse(a, b) == IF "bad" \in {a, b} THEN "bad" ELSE IF "loose" \in {a, b} THEN "loose" ELSE "ok"

\* Unescaped quotes inside and a backslash before the closing quote are unusual
BodyZone(body) ==
  LET step(st, c) == CASE st = "odd" -> "odd"
                       [] st = "text" -> IF c = BACKSLASH THEN "esc" ELSE IF c = QUOTE THEN "odd" ELSE "text"
                       [] st = "esc" -> "text"
  IN IF FoldLeft(step, "text", body) = "text" THEN "ok" ELSE "loose"

Quoted(s) == Len(s) >= 2 /\ s[1] = QUOTE /\ s[Len(s)] = QUOTE
Body(s) == SubSeq(s, 2, Len(s) - 1)

\* the position of the first character that is not PO white space
SkipBlanks(s) == LET p == SelectInSeq(s, LAMBDA c : ~IsBlank(c)) IN IF p = 0 THEN <<>> ELSE From(s, p)

\* keyword, white space, quoted text
Keyword(kind, idx, rest, z) ==
  LET q == SkipBlanks(rest)
  IN IF ~Quoted(q) THEN Bad
     ELSE [k |-> kind, idx |-> idx, v |-> DecodeBody(Body(q)),
           z |-> Worse(z, Worse(BodyZone(Body(q)), IF rest[1] = SP THEN "ok" ELSE "loose"))]

MsgStr(rest) ==
  LET r == SkipBlanks(rest)
      z == IF r = rest THEN "ok" ELSE "loose"
      close == IndexOf(r, 93)
      digits == SubSeq(r, 2, close - 1)
  IN IF r # <<>> /\ r[1] = 91
     THEN IF close = 0 \/ ~AllDigits(digits) THEN Bad
          ELSE Keyword("msgstr[]", StripZeros(digits), From(r, close + 1),
                       IF Len(StripZeros(digits)) > 15 THEN "loose" ELSE z)
     ELSE Keyword("msgstr", <<48>>, rest, "ok")

Message(line) ==
  IF line[1] = QUOTE
  THEN IF Quoted(line) THEN [k |-> "cont", v |-> DecodeBody(Body(line)), z |-> BodyZone(Body(line))] ELSE Bad
  ELSE IF HasPrefix(line, K_pl) THEN Keyword("msgid_plural", <<>>, From(line, Len(K_pl) + 1), "ok")
  ELSE IF HasPrefix(line, K_id) THEN Keyword("msgid", <<>>, From(line, Len(K_id) + 1), "ok")
  ELSE IF HasPrefix(line, K_ctx) THEN Keyword("msgctxt", <<>>, From(line, Len(K_ctx) + 1), "ok")
  ELSE IF HasPrefix(line, K_str) THEN MsgStr(From(line, Len(K_str) + 1))
  ELSE Bad

\* previous-text comments:  #| msgctxt "..."   #| msgid "..."   #| "..."
Previous(rest) ==
  LET r == SkipBlanks(rest)
      text(s) == DecodeLine(s)
  IN IF r = <<>> THEN [k |-> "comment", c |-> "none", v |-> <<>>]
     ELSE IF r = rest THEN [k |-> "comment", c |-> "badprev", v |-> <<>>]
     ELSE IF HasPrefix(r, K_ctx) THEN [k |-> "comment", c |-> "prevctx", v |-> text(From(r, 8))]
     ELSE IF HasPrefix(r, K_pl) THEN [k |-> "comment", c |-> "prevpl", v |-> <<>>]
     ELSE IF HasPrefix(r, K_id) THEN [k |-> "comment", c |-> "previd", v |-> text(From(r, 6))]
     ELSE IF Quoted(r) THEN [k |-> "comment", c |-> "prevline", v |-> text(r)]
     ELSE [k |-> "comment", c |-> "badprev", v |-> <<>>]

Comment(line) ==
  LET rest == Trim(From(line, 3))
      com(c) == [k |-> "comment", c |-> c, v |-> rest]
  IN IF Len(line) = 1 THEN [k |-> "comment", c |-> "tr", v |-> <<>>]
     ELSE CASE line[2] = 46 -> com("ex")
            [] line[2] = COLON -> IF rest = <<>> THEN com("none") ELSE com("ref")
            [] line[2] = COMMA -> IF rest = <<>> THEN com("none") ELSE com("flag")
            [] line[2] = 124 -> Previous(From(line, 3))
            [] OTHER -> [k |-> "comment", c |-> "tr", v |-> Trim(From(line, 2))]

Tok(raw) ==
  LET line == Trim(raw)
  IN IF line = <<>> THEN [k |-> "blank"]
     ELSE IF line[1] = HASH THEN Comment(line)
     ELSE Message(line)

(* ------------------------------ entries -------------------------------- *)
NoComment == [tr |-> <<>>, ex |-> <<>>, refs |-> <<>>, flags |-> <<>>, pctx |-> <<>>, pid |-> <<>>]
NewEntry == [started |-> FALSE, hasId |-> FALSE, ctx |-> <<>>, id |-> <<>>, plSeen |-> FALSE, pl |-> <<>>,
             kind |-> "none", str |-> <<>>, last |-> "", gap |-> FALSE, com |-> NoComment, prev |-> ""]
InitParse == [done |-> <<>>, e |-> NewEntry, z |-> "ok"]

AddLine(text, line) == IF text = <<>> THEN line ELSE text \o <<LF>> \o line

\* a reference is a path and, after its last colon, a line number
Reference(f) ==
  LET p == LastIndexOf(f, COLON)
  IN IF p > 1 /\ IsInteger(From(f, p + 1)) /\ Len(f) - p <= 15
     THEN [path |-> SubSeq(f, 1, p - 1), line |-> NormInteger(From(f, p + 1))]
     ELSE [path |-> f, line |-> <<45, 49>>]
References(v) == [i \in 1..Len(Fields(v)) |-> Reference(Fields(v)[i])]
Flags(v) == NonEmpty(SplitBy(v, LAMBDA c : IsSpace(c) \/ c = COMMA))

AddComment(e, t) ==
  LET c == e.com
  IN CASE t.c = "tr"  -> [e EXCEPT !.com.tr = AddLine(c.tr, t.v), !.prev = ""]
       [] t.c = "ex"  -> [e EXCEPT !.com.ex = AddLine(c.ex, t.v), !.prev = ""]
       [] t.c = "ref" -> [e EXCEPT !.com.refs = c.refs \o References(t.v), !.prev = ""]
       [] t.c = "flag" -> [e EXCEPT !.com.flags = c.flags \o Flags(t.v), !.prev = ""]
       [] t.c = "prevctx" -> [e EXCEPT !.com.pctx = c.pctx \o t.v, !.prev = "ctx"]
       [] t.c = "previd"  -> [e EXCEPT !.com.pid = c.pid \o t.v, !.prev = "id"]
       [] t.c = "prevpl"  -> [e EXCEPT !.prev = "pl"]      \* there is no field for it
       [] t.c = "prevline" /\ e.prev = "ctx" -> [e EXCEPT !.com.pctx = c.pctx \o t.v]
       [] t.c = "prevline" /\ e.prev = "id"  -> [e EXCEPT !.com.pid = c.pid \o t.v]
       [] OTHER -> e

Close(st) == [st EXCEPT !.done = IF st.e.started THEN Append(@, st.e) ELSE @, !.e = NewEntry]
Reject(st) == [st EXCEPT !.z = "bad"]
Loosen(st, z) == [st EXCEPT !.z = Worse(@, z)]
HasIndex(e, idx) == \E i \in 1..Len(e.str) : e.str[i].idx = idx
Complete(st) == st.e.kind # "none"
Open(st) == st.e.started /\ ~Complete(st)
Fresh(st) == IF Complete(st) THEN Close(st) ELSE st      \* a new entry begins if this one is complete

Skipped(t, skip) == t.c = "none" \/ (skip /\ t.c # "flag")

StepComment(st, t, skip) ==
  IF Skipped(t, skip)
  THEN Loosen([st EXCEPT !.e.gap = TRUE], IF Open(st) THEN "loose" ELSE "ok")
  ELSE IF Open(st) THEN Loosen([st EXCEPT !.e = AddComment([st.e EXCEPT !.last = ""], t)], "loose")
  ELSE LET s == Fresh(st)
           unusual == t.c = "badprev" \/ (t.c = "prevline" /\ s.e.prev = "")
       IN Loosen([s EXCEPT !.e = AddComment(@, t)], IF unusual THEN "loose" ELSE "ok")

StepContinuation(st, t) ==
  LET e == st.e
      n == Len(e.str)
      s == Loosen(st, Worse(t.z, IF e.gap THEN "loose" ELSE "ok"))
  IN CASE e.last = "ctx" -> [s EXCEPT !.e.ctx = @ \o t.v]
       [] e.last = "id"  -> [s EXCEPT !.e.id = @ \o t.v]
       [] e.last = "pl"  -> [s EXCEPT !.e.pl = @ \o t.v]
       [] e.last = "str" -> [s EXCEPT !.e.str[n].v = @ \o t.v]
       [] OTHER -> Reject(st)

Step(st, t, skip) ==
  IF st.z = "bad" THEN st
  ELSE CASE t.k = "bad" -> Reject(st)
         [] t.k = "blank" -> IF Open(st) THEN Loosen([st EXCEPT !.e.last = ""], "loose") ELSE Close(st)
         [] t.k = "comment" -> StepComment(st, t, skip)
         [] t.k = "cont" -> StepContinuation(st, t)
         [] t.k = "msgctxt" ->
              LET s == Loosen(Fresh(st), t.z)
              IN IF s.e.started THEN Reject(st)
                 ELSE [s EXCEPT !.e.started = TRUE, !.e.ctx = t.v, !.e.last = "ctx", !.e.gap = FALSE]
         [] t.k = "msgid" ->
              LET s == Loosen(Fresh(st), t.z)
              IN IF s.e.hasId THEN Reject(st)
                 ELSE [s EXCEPT !.e.started = TRUE, !.e.hasId = TRUE, !.e.id = t.v, !.e.last = "id", !.e.gap = FALSE]
         [] t.k = "msgid_plural" ->
              IF ~st.e.hasId \/ Complete(st) \/ st.e.pl # <<>> THEN Reject(st)
              ELSE Loosen([st EXCEPT !.e.plSeen = TRUE, !.e.pl = t.v, !.e.last = "pl", !.e.gap = FALSE],
                          Worse(t.z, IF st.e.plSeen THEN "loose" ELSE "ok"))
         [] t.k = "msgstr" ->
              IF ~st.e.hasId \/ Complete(st) THEN Reject(st)
              ELSE Loosen([st EXCEPT !.e.kind = "one", !.e.str = <<[idx |-> <<48>>, v |-> t.v]>>, !.e.last = "str", !.e.gap = FALSE],
                          Worse(t.z, IF st.e.plSeen THEN "loose" ELSE "ok"))
         [] t.k = "msgstr[]" ->
              IF ~st.e.hasId \/ st.e.kind = "one" \/ HasIndex(st.e, t.idx) THEN Reject(st)
              ELSE Loosen([st EXCEPT !.e.kind = "many", !.e.str = Append(@, [idx |-> t.idx, v |-> t.v]), !.e.last = "str", !.e.gap = FALSE],
                          Worse(t.z, IF st.e.plSeen THEN "ok" ELSE "loose"))

(* ------------------------------ the result ------------------------------ *)
HeaderLines(text) == SelectSeq(Lines(text), LAMBDA l : Trim(l) # <<>>)
HeaderValid(text) == \A i \in 1..Len(HeaderLines(text)) : IndexOf(HeaderLines(text)[i], COLON) > 0
HeaderFields(text) ==
  LET step(acc, l) == LET p == IndexOf(l, COLON)
                      IN SetField(acc, Trim(SubSeq(l, 1, p - 1)), Trim(From(l, p + 1)))
  IN SelectSeq(FoldLeft(step, <<>>, HeaderLines(text)), LAMBDA f : f.v # <<>>)

StrAt(e, idx) == LET i == SelectInSeq(e.str, LAMBDA x : x.idx = idx) IN IF i = 0 THEN <<>> ELSE e.str[i].v

\* obsolete entries (#~) are comments without content
Visible(tr) == JoinWith(SelectSeq(Lines(tr), LAMBDA l : l = <<>> \/ l[1] # 126), <<LF>>)
CommentOut(c) == [tr |-> Visible(c.tr), ex |-> c.ex, refs |-> c.refs, flags |-> c.flags, pctx |-> c.pctx, pid |-> c.pid]
MessageOut(e) == [ctx |-> e.ctx, id |-> e.id, pl |-> e.pl, str_set |-> ToSet(e.str), com |-> CommentOut(e.com)]

Error == [err |-> TRUE]
NoHeader == [fields_set |-> {}, com |-> CommentOut(NoComment)]

Finish(st) ==
  LET s == IF st.e.started /\ ~st.e.hasId THEN Reject(st)
           ELSE Close(Loosen(st, IF Open(st) THEN "loose" ELSE "ok"))
      all == s.done
      heads == SelectSeq(all, LAMBDA e : e.id = <<>> /\ e.kind # "none")
      valid == SelectSeq(heads, LAMBDA e : HeaderValid(StrAt(e, <<48>>)))
      msgs == SelectSeq(all, LAMBDA e : e.id # <<>>)
      oddHead == \E i \in 1..Len(heads) : heads[i].ctx # <<>> \/ heads[i].kind # "one"
      dup == \E i, j \in 1..Len(msgs) : i < j /\ msgs[i].ctx = msgs[j].ctx /\ msgs[i].id = msgs[j].id
      \* a second header after a valid one
      twice == \E i, j \in 1..Len(heads) : i < j /\ HeaderValid(StrAt(heads[i], <<48>>))
      zone == IF s.z = "bad" \/ dup \/ twice \/ (valid = <<>> /\ msgs = <<>>) THEN "bad"
              ELSE IF oddHead \/ heads # valid THEN "loose" ELSE s.z
      h == valid[1]
      header == IF valid = <<>> THEN NoHeader
                ELSE [fields_set |-> ToSet(HeaderFields(StrAt(h, <<48>>))), com |-> CommentOut(h.com)]
  IN [z |-> zone,
      res |-> [err |-> FALSE, header |-> header, messages_set |-> {MessageOut(msgs[i]) : i \in 1..Len(msgs)}]]

\* the outcomes that reading a text may have
Outcomes(fin) == CASE fin.z = "bad" -> {Error}
                   [] fin.z = "loose" -> {Error, fin.res}
                   [] fin.z = "ok" -> {fin.res}

FileLines(text) == LET ls == Lines(text) IN IF ls[Len(ls)] = <<>> THEN Front(ls) ELSE ls
ParseText(text, skip) ==
  LET step(st, l) == Step(st, Tok(l), skip) IN Finish(FoldLeft(step, InitParse, FileLines(text)))
=============================================================================
