----------------------------- MODULE MC_FileLoad -----------------------------
(* The loader walks through its candidates; the file system decides at every  *)
(* step what it finds.                                                        *)
EXTENDS FileLoad, Emit
CONSTANTS Tags, Domains, Cats, ExtLists, MaxGone
VARIABLES cfg, tag, domain, cs, at, phase, files, out, gone, rest
vars == <<cfg, tag, domain, cs, at, phase, files, out, gone, rest>>
T(s, b, i, r, sc) == [str |-> s, base |-> b, iso3 |-> i, region |-> r, script |-> sc]
AllTags == <<T("de", "de", "deu", "DE", "Latn"), T("en-GB", "en", "eng", "GB", "Latn"), T("zh-Hant-TW", "zh", "zho", "TW", "Hant"), T("sr-Latn", "sr", "srp", "RS", "Latn"),
             T("pt-BR", "pt", "por", "BR", "Latn"), T("es-419", "es", "spa", "419", "Latn"), T("tlh", "tlh", "tlh", "", ""), T("de-AT-1996", "de", "deu", "AT", "Latn")>>
AllExts == <<<<>>, <<".po">>, <<".json", ".po">>, <<".mo", ".txt", ".po">>>>
Init == /\ cfg \in [exts : {AllExts[i] : i \in ExtLists}, search : BOOLEAN, cat : Cats]
        /\ tag \in {AllTags[i] : i \in Tags} /\ domain \in Domains
        /\ cs = <<>> /\ at = 0 /\ phase = "start" /\ files = <<>> /\ out = <<>> /\ gone = 0 /\ rest = "none"
Start == phase = "start" /\ cs' = Candidates(cfg, tag, domain) /\ at' = 1 /\ phase' = "probe" /\ UNCHANGED <<cfg, tag, domain, files, out, gone, rest>>
Put(s) == files' = Append(files, [p |-> cs[at].p, s |-> s])
Known == StateAt(files, cs[at].p) # "none"
End(o) == phase' = "end" /\ out' = o /\ UNCHANGED <<cfg, tag, domain, cs, at, gone, rest>>
\* is there a file at this path?
Exhausted == phase = "probe" /\ at > Len(cs) /\ End(Missing) /\ UNCHANGED files
No == phase = "probe" /\ at <= Len(cs) /\ ~Known /\ at' = at + 1 /\ UNCHANGED <<cfg, tag, domain, cs, phase, files, out, gone, rest>>
Fault(s) == phase = "probe" /\ at <= Len(cs) /\ ~Known /\ gone = 0 /\ Put(s) /\ End(Failed)
Good == phase = "probe" /\ at <= Len(cs) /\ ~Known /\ Put("good") /\ End(Served(cs[at].p))
\* the file vanishes before it is opened: the search goes on with the next extension
Gone == /\ phase = "probe" /\ at <= Len(cs) /\ ~Known /\ gone < MaxGone
        /\ Put("gone") /\ gone' = gone + 1
        /\ LET n == SelectInSubSeq(cs, at, Len(cs), LAMBDA c : c.e # cs[at].e) IN at' = IF n = 0 THEN Len(cs) + 1 ELSE n
        /\ UNCHANGED <<cfg, tag, domain, cs, phase, out, rest>>
\* afterwards: all later candidates exist as well, which must not matter
More == phase = "end" /\ rest = "none" /\ rest' = "all" /\ UNCHANGED <<cfg, tag, domain, cs, at, phase, files, out, gone>>
Next == Start \/ Exhausted \/ No \/ Good \/ Gone \/ More \/ \E s \in {"stat", "open", "read", "close", "bad"} : Fault(s)

\* the machine and the function agree
Tried == {cs[i].p : i \in 1..(at-1)}
Paths == [f \in 1..Len(files) |-> files[f].p]
Outcome == phase = "end" => LET o == LoadOutcomes(cfg, tag, domain, files, ToSet(Paths)) IN out \in o /\ (gone = 0 => Cardinality(o) = 1)
\* what is used is a candidate, and the first one that exists
First == phase = "end" /\ out # <<>> /\ "p" \in DOMAIN out /\ gone = 0 => Len(files) = 1 /\ files[1].p = out.p /\ \A i \in 1..Len(cs) : cs[i].p = out.p \/ (\E j \in 1..Len(cs) : cs[j].p = out.p /\ j < i) \/ StateAt(files, cs[i].p) = "none"
\* candidates are different paths, apart from layouts that coincide
OneLang == phase = "probe" /\ at = 1 => /\ \A i \in 1..Len(cs) : \E n \in NameSet(tag) : \E k \in 1..Len(cs[i].p) : k + Len(n) - 1 <= Len(cs[i].p) /\ SubSeq(cs[i].p, k, k + Len(n) - 1) = n
                                  /\ (~cfg.search /\ domain # "" => Len(cs) = Cardinality(NameSet(tag)) * Len(Exts(cfg)))
                                  /\ (~cfg.search /\ domain = "" => cs = <<>>)
LongestFirst == phase = "probe" /\ at = 1 => LET n == Names(tag) IN \A i \in 1..(Len(n)-1) : Len(n[i]) >= Len(n[i+1]) /\ n[i] # n[i+1]
Later == IF rest = "none" \/ at > Len(cs) THEN <<>> ELSE SetToSeq({[p |-> cs[i].p, s |-> "good"] : i \in {j \in (at+1)..Len(cs) : cs[j].p \notin Tried}} \ {[p |-> files[f].p, s |-> "good"] : f \in 1..Len(files)})
Decoys == SetToSeq({[p |-> "xx" \o p, s |-> "good"] : p \in {cs[i].p : i \in 1..2}} \cup {[p |-> "other.po", s |-> "good"], [p |-> tag.str \o ".xyz", s |-> "good"]})
World == LET l == Later IN files \o SelectSeq(l, LAMBDA f : StateAt(files, f.p) = "none") \o (IF Len(cs) > 1 THEN Decoys ELSE <<>>)
CaseOut == phase = "end" => Emit([op |-> "fs.known", in |-> [tag |-> tag, domain |-> domain, cfg |-> cfg, files |-> World, style |-> at + Len(cs)],
                                  exp |-> SetToSeq(IF gone = 0 THEN {out} ELSE LoadOutcomes(cfg, tag, domain, World, {}))])
=============================================================================
