------------------------------ MODULE FileLoad ------------------------------
(* Finding and loading a translation file: which path is used for a language  *)
(* and domain, and what faults of the file system lead to.                    *)
(*                                                                            *)
(* tag: the facts about a language tag: [str, base, iso3, region, script],    *)
(*      "" where nothing is known                                             *)
(* cfg: [exts, search, cat]: extensions (none: the default ones), searching   *)
(*      in all layouts, category ("" if none)                                 *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

(* ---- names of a language, from the longest to the shortest ---- *)
Chars == "-_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
\* byte order
Sorted == <<"-", "0123456789", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "_", "abcdefghijklmnopqrstuvwxyz">>
Order == Sorted[1] \o Sorted[2] \o Sorted[3] \o Sorted[4] \o Sorted[5]
Rank == [c \in {SubSeq(Order, i, i) : i \in 1..Len(Order)} |-> CHOOSE i \in 1..Len(Order) : SubSeq(Order, i, i) = c]
Before(a, b) ==
  \/ Len(a) > Len(b)
  \/ /\ Len(a) = Len(b) /\ a # b
     /\ LET k == CHOOSE k \in 1..Len(a) : SubSeq(a, k, k) # SubSeq(b, k, k) /\ \A j \in 1..(k-1) : SubSeq(a, j, j) = SubSeq(b, j, j)
        IN Rank[SubSeq(a, k, k)] < Rank[SubSeq(b, k, k)]
NameSet(tag) ==
  {tag.str}
  \cup (IF tag.base = "" THEN {} ELSE {tag.base, tag.iso3})
  \cup (IF tag.base = "" \/ tag.region = "" THEN {} ELSE {tag.base \o "_" \o tag.region, tag.base \o "-" \o tag.region})
  \cup (IF tag.base = "" \/ tag.script = "" THEN {} ELSE {tag.base \o "_" \o tag.script, tag.base \o "-" \o tag.script})
Names(tag) == SetToSortSeq(NameSet(tag), Before)

(* ---- candidate paths ---- *)
DefaultExts == <<".po", ".mo", ".json">>
Exts(cfg) == IF cfg.exts = <<>> THEN DefaultExts ELSE cfg.exts
Dir(d) == IF d = "" THEN "" ELSE d \o "/"
LC == "LC_MESSAGES"
Layouts(cfg, name, domain, ext) ==
  LET named(d) == IF domain = "" THEN <<>> ELSE <<d \o domain \o ext>>
  IN named(name \o "/" \o Dir(cfg.cat))
     \o IF ~cfg.search THEN <<>>
        ELSE named(name \o "/" \o LC \o "/") \o named(name \o "/")
             \o (IF domain = "" THEN <<>> ELSE <<domain \o "/" \o name \o ext>>)
             \o <<name \o ext>>
             \o (IF cfg.cat = "" THEN <<>> ELSE <<cfg.cat \o "/" \o name \o ext>>)
             \o <<LC \o "/" \o name \o ext>>
\* [e |-> extension, p |-> path], in the order in which they are tried; a path is tried once per extension
Candidates(cfg, tag, domain) ==
  LET names == Names(tag)
  IN FlattenSeq([i \in 1..Len(Exts(cfg)) |->
       FlattenSeq([n \in 1..Len(names) |->
         LET ls == Layouts(cfg, names[n], domain, Exts(cfg)[i]) IN [k \in 1..Len(ls) |-> [e |-> i, p |-> ls[k]]]])])

(* ---- the outcome ----                                                      *)
(* files: sequence of [p |-> path, s |-> state]; states:                      *)
(*   good, bad (content is rejected), stat, open, read, seek, close (that     *)
(*   operation fails), gone (it no longer exists when it is opened)           *)
(* A fault only matters if it happened: hits are the paths where it did.      *)
StateAt(files, p) == LET i == SelectInSeq(files, LAMBDA f : f.p = p) IN IF i = 0 THEN "none" ELSE files[i].s
Missing == [k |-> "missing"]
Failed == [k |-> "err"]
Served(p) == [k |-> "ok", p |-> p]
RECURSIVE From(_, _, _, _)
\* the outcomes when the search goes on with the i-th candidate
From(cs, i, files, hits) ==
  IF i > Len(cs) THEN {Missing}
  ELSE LET s == StateAt(files, cs[i].p)
           nextExt == SelectInSubSeq(cs, i, Len(cs), LAMBDA c : c.e # cs[i].e)
       IN CASE s = "none" -> From(cs, i + 1, files, hits)
            [] s = "good" -> {Served(cs[i].p)}
            [] s \in {"bad", "stat", "open"} -> {Failed}
            [] s \in {"read", "seek", "close"} -> {IF cs[i].p \in hits THEN Failed ELSE Served(cs[i].p)}
            \* it counts as missing: whether the search goes on in the same extension is free
            [] s = "gone" -> From(cs, i + 1, files, hits) \cup From(cs, IF nextExt = 0 THEN Len(cs) + 1 ELSE nextExt, files, hits)
LoadOutcomes(cfg, tag, domain, files, hits) == From(Candidates(cfg, tag, domain), 1, files, hits)
\* the resolver for one extension
ResolveOutcomes(cfg, tag, domain, ext, files) ==
  LET cs == Candidates([cfg EXCEPT !.exts = <<ext>>], tag, domain)
      i == SelectInSeq(cs, LAMBDA c : StateAt(files, c.p) # "none")
      s == StateAt(files, cs[i].p)
  \* a file system may open a file in order to examine it
  IN IF i = 0 THEN {Missing} ELSE (IF s \in {"stat", "open"} THEN {Failed} ELSE {}) \cup (IF s = "stat" THEN {} ELSE {Served(cs[i].p)})
=============================================================================
