----------------------------- MODULE CldrTable ------------------------------
(* The CLDR's plural rules of the built-in languages (supplemental data,      *)
(* plurals.xml), with the names they are known by.                            *)
EXTENDS CldrRules
Table == <<
  [l |-> {"bm", "bo", "dz", "hnj", "id", "ig", "ii", "ja", "jbo", "jv", "jw", "kde", "kea", "km", "ko", "lkt", "lo", "ms", "my", "nqo", "osa", "sah", "ses", "sg", "su", "th", "to", "tpi", "und", "vi", "wo", "yo", "yue", "zh"},
   r |-> <<>>],
  [l |-> {"af", "an", "asa", "az", "bal", "bem", "bez", "bg", "brx", "ce", "cgg", "chr", "ckb", "dv", "ee", "el", "eo", "eu", "fo", "fur", "gsw", "ha", "haw", "hu", "jgo", "jmc", "ka", "kaj", "kcg", "kk", "kkj", "kl", "ks", "ksb", "ku", "ky", "lb", "lg", "mas", "mgo", "ml", "mn", "mr", "nah", "nb", "nd", "ne", "nn", "nnh", "no", "nr", "ny", "nyn", "om", "or", "os", "pap", "ps", "rm", "rof", "rwk", "saq", "sd", "sdh", "seh", "sn", "so", "sq", "ss", "ssy", "st", "syr", "ta", "te", "teo", "tig", "tk", "tn", "tr", "ts", "ug", "uz", "ve", "vo", "vun", "wae", "xh", "xog"},
   r |-> <<[c |-> 1, s |-> "n = 1"]>>],
  [l |-> {"ak", "bho", "csw", "guw", "ln", "mg", "nso", "pa", "ti", "wa"},
   r |-> <<[c |-> 1, s |-> "n = 0..1"]>>],
  [l |-> {"am", "as", "bn", "doi", "fa", "gu", "hi", "kn", "pcm", "zu"},
   r |-> <<[c |-> 1, s |-> "i = 0 or n = 1"]>>],
  [l |-> {"ast", "de", "en", "et", "fi", "fy", "gl", "ia", "io", "lij", "nl", "sc", "sv", "sw", "ur", "yi"},
   r |-> <<[c |-> 1, s |-> "i = 1 and v = 0"]>>],
  [l |-> {"ceb", "fil", "tl"},
   r |-> <<[c |-> 1, s |-> "v = 0 and i = 1,2,3 or v = 0 and i % 10 != 4,6,9 or v != 0 and f % 10 != 4,6,9"]>>],
  [l |-> {"da"},
   r |-> <<[c |-> 1, s |-> "n = 1 or t != 0 and i = 0,1"]>>],
  [l |-> {"ff", "hy", "kab"},
   r |-> <<[c |-> 1, s |-> "i = 0,1"]>>],
  [l |-> {"is"},
   r |-> <<[c |-> 1, s |-> "t = 0 and i % 10 = 1 and i % 100 != 11 or t % 10 = 1 and t % 100 != 11"]>>],
  [l |-> {"mk"},
   r |-> <<[c |-> 1, s |-> "v = 0 and i % 10 = 1 and i % 100 != 11 or f % 10 = 1 and f % 100 != 11"]>>],
  [l |-> {"si"},
   r |-> <<[c |-> 1, s |-> "n = 0,1 or i = 0 and f = 1"]>>],
  [l |-> {"tzm"},
   r |-> <<[c |-> 1, s |-> "n = 0..1 or n = 11..99"]>>],
  [l |-> {"blo", "ksh"},
   r |-> <<[c |-> 0, s |-> "n = 0"], [c |-> 1, s |-> "n = 1"]>>],
  [l |-> {"bs", "hr", "sh", "sr", "sr-Latn"},
   r |-> <<[c |-> 1, s |-> "v = 0 and i % 10 = 1 and i % 100 != 11 or f % 10 = 1 and f % 100 != 11"], [c |-> 3, s |-> "v = 0 and i % 10 = 2..4 and i % 100 != 12..14 or f % 10 = 2..4 and f % 100 != 12..14"]>>],
  [l |-> {"ca", "it", "lld", "pt-PT", "scn", "vec"},
   r |-> <<[c |-> 1, s |-> "i = 1 and v = 0"], [c |-> 4, s |-> "e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5"]>>],
  [l |-> {"es"},
   r |-> <<[c |-> 1, s |-> "n = 1"], [c |-> 4, s |-> "e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5"]>>],
  [l |-> {"fr"},
   r |-> <<[c |-> 1, s |-> "i = 0,1"], [c |-> 4, s |-> "e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5"]>>],
  [l |-> {"he"},
   r |-> <<[c |-> 1, s |-> "i = 1 and v = 0 or i = 0 and v != 0"], [c |-> 2, s |-> "i = 2 and v = 0"]>>],
  [l |-> {"iu", "naq", "sat", "se", "sma", "smi", "smj", "smn", "sms"},
   r |-> <<[c |-> 1, s |-> "n = 1"], [c |-> 2, s |-> "n = 2"]>>],
  [l |-> {"lag"},
   r |-> <<[c |-> 0, s |-> "n = 0"], [c |-> 1, s |-> "i = 0,1 and n != 0"]>>],
  [l |-> {"lv", "prg"},
   r |-> <<[c |-> 0, s |-> "n % 10 = 0 or n % 100 = 11..19 or v = 2 and f % 100 = 11..19"], [c |-> 1, s |-> "n % 10 = 1 and n % 100 != 11 or v = 2 and f % 10 = 1 and f % 100 != 11 or v != 2 and f % 10 = 1"]>>],
  [l |-> {"mo", "ro", "ro-MD"},
   r |-> <<[c |-> 1, s |-> "i = 1 and v = 0"], [c |-> 3, s |-> "v != 0 or n = 0 or n != 1 and n % 100 = 1..19"]>>],
  [l |-> {"pt"},
   r |-> <<[c |-> 1, s |-> "i = 0..1"], [c |-> 4, s |-> "e = 0 and i != 0 and i % 1000000 = 0 and v = 0 or e != 0..5"]>>],
  [l |-> {"shi"},
   r |-> <<[c |-> 1, s |-> "i = 0 or n = 1"], [c |-> 3, s |-> "n = 2..10"]>>],
  [l |-> {"be"},
   r |-> <<[c |-> 1, s |-> "n % 10 = 1 and n % 100 != 11"], [c |-> 3, s |-> "n % 10 = 2..4 and n % 100 != 12..14"], [c |-> 4, s |-> "n % 10 = 0 or n % 10 = 5..9 or n % 100 = 11..14"]>>],
  [l |-> {"cs", "sk"},
   r |-> <<[c |-> 1, s |-> "i = 1 and v = 0"], [c |-> 3, s |-> "i = 2..4 and v = 0"], [c |-> 4, s |-> "v != 0"]>>],
  [l |-> {"dsb", "hsb"},
   r |-> <<[c |-> 1, s |-> "v = 0 and i % 100 = 1 or f % 100 = 1"], [c |-> 2, s |-> "v = 0 and i % 100 = 2 or f % 100 = 2"], [c |-> 3, s |-> "v = 0 and i % 100 = 3..4 or f % 100 = 3..4"]>>],
  [l |-> {"gd"},
   r |-> <<[c |-> 1, s |-> "n = 1,11"], [c |-> 2, s |-> "n = 2,12"], [c |-> 3, s |-> "n = 3..10,13..19"]>>],
  [l |-> {"lt"},
   r |-> <<[c |-> 1, s |-> "n % 10 = 1 and n % 100 != 11..19"], [c |-> 3, s |-> "n % 10 = 2..9 and n % 100 != 11..19"], [c |-> 4, s |-> "f != 0"]>>],
  [l |-> {"pl"},
   r |-> <<[c |-> 1, s |-> "i = 1 and v = 0"], [c |-> 3, s |-> "v = 0 and i % 10 = 2..4 and i % 100 != 12..14"], [c |-> 4, s |-> "v = 0 and i != 1 and i % 10 = 0..1 or v = 0 and i % 10 = 5..9 or v = 0 and i % 100 = 12..14"]>>],
  [l |-> {"ru", "uk"},
   r |-> <<[c |-> 1, s |-> "v = 0 and i % 10 = 1 and i % 100 != 11"], [c |-> 3, s |-> "v = 0 and i % 10 = 2..4 and i % 100 != 12..14"], [c |-> 4, s |-> "v = 0 and i % 10 = 0 or v = 0 and i % 10 = 5..9 or v = 0 and i % 100 = 11..14"]>>],
  [l |-> {"sl"},
   r |-> <<[c |-> 1, s |-> "v = 0 and i % 100 = 1"], [c |-> 2, s |-> "v = 0 and i % 100 = 2"], [c |-> 3, s |-> "v = 0 and i % 100 = 3..4 or v != 0"]>>],
  [l |-> {"br"},
   r |-> <<[c |-> 1, s |-> "n % 10 = 1 and n % 100 != 11,71,91"], [c |-> 2, s |-> "n % 10 = 2 and n % 100 != 12,72,92"], [c |-> 3, s |-> "n % 10 = 3..4,9 and n % 100 != 10..19,70..79,90..99"], [c |-> 4, s |-> "n != 0 and n % 1000000 = 0"]>>],
  [l |-> {"ga"},
   r |-> <<[c |-> 1, s |-> "n = 1"], [c |-> 2, s |-> "n = 2"], [c |-> 3, s |-> "n = 3..6"], [c |-> 4, s |-> "n = 7..10"]>>],
  [l |-> {"gv"},
   r |-> <<[c |-> 1, s |-> "v = 0 and i % 10 = 1"], [c |-> 2, s |-> "v = 0 and i % 10 = 2"], [c |-> 3, s |-> "v = 0 and i % 100 = 0,20,40,60,80"], [c |-> 4, s |-> "v != 0"]>>],
  [l |-> {"mt"},
   r |-> <<[c |-> 1, s |-> "n = 1"], [c |-> 2, s |-> "n = 2"], [c |-> 3, s |-> "n = 0 or n % 100 = 3..10"], [c |-> 4, s |-> "n % 100 = 11..19"]>>],
  [l |-> {"ar", "ars"},
   r |-> <<[c |-> 0, s |-> "n = 0"], [c |-> 1, s |-> "n = 1"], [c |-> 2, s |-> "n = 2"], [c |-> 3, s |-> "n % 100 = 3..10"], [c |-> 4, s |-> "n % 100 = 11..99"]>>],
  [l |-> {"cy"},
   r |-> <<[c |-> 0, s |-> "n = 0"], [c |-> 1, s |-> "n = 1"], [c |-> 2, s |-> "n = 2"], [c |-> 3, s |-> "n = 3"], [c |-> 4, s |-> "n = 6"]>>],
  [l |-> {"kw"},
   r |-> <<[c |-> 0, s |-> "n = 0"], [c |-> 1, s |-> "n = 1"], [c |-> 2, s |-> "n % 100 = 2,22,42,62,82 or n % 1000 = 0 and n % 100000 = 1000..20000,40000,60000,80000 or n != 0 and n % 1000000 = 100000"], [c |-> 3, s |-> "n % 100 = 3,23,43,63,83"], [c |-> 4, s |-> "n != 1 and n % 100 = 1,21,41,61,81"]>>] >>

Parsed_ == [i \in 1..Len(Table) |-> [k \in 1..Len(Table[i].r) |-> ParseRule(Codes(Table[i].r[k].s))]]
Rules == [i \in 1..Len(Table) |-> [k \in 1..Len(Table[i].r) |-> [c |-> Table[i].r[k].c, n |-> Parsed_[i][k].n]]]
RowOf(lang) == SelectInSeq(Table, LAMBDA r : lang \in r.l)
\* A tag is described by the chain of itself and its parents, each with the base language it certainly has ("" if none).
\* Its rules are those of itself or else of its closest relative: base languages may be preferred to other parents.
FirstRow(names) == LET k == SelectInSeq(names, LAMBDA x : RowOf(x) # 0) IN IF k = 0 THEN 0 ELSE RowOf(names[k])
Mixed(chain) == FlattenSeq([i \in 1..Len(chain) |-> <<chain[i].s, chain[i].base>>])
Apart(chain) == [i \in 1..Len(chain) |-> chain[i].s] \o [i \in 1..Len(chain) |-> chain[i].base]
RowsFor(chain) == {FirstRow(Mixed(chain)), FirstRow(Apart(chain))}
English == RowOf("en")
=============================================================================
