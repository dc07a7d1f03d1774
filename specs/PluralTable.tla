---------------------------- MODULE PluralTable -----------------------------
(* The published gettext plural formulas of the built-in languages            *)
(* (CLDR's integer rules written as Plural-Forms).                            *)
EXTENDS PluralForms
Table == <<
  [h |-> "nplurals=1; plural=0;",
   l |-> {"bm", "bo", "dz", "hnj", "id", "ig", "ii", "ja", "jbo", "jv", "kde", "kea", "km", "ko", "lkt", "lo", "ms", "my", "nqo", "osa", "sah", "ses", "sg", "su", "th", "to", "tpi", "vi", "wo", "yo", "yue", "zh", "zh-Hans", "zh-Hant"}],
  [h |-> "nplurals=2; plural=n != 1;",
   l |-> {"af", "an", "asa", "ast", "az", "bal", "bem", "bez", "bg", "brx", "ce", "cgg", "chr", "ckb", "da", "de", "de-AT", "de-CH", "dv", "ee", "el", "en", "en-AU", "en-CA", "en-GB", "en-US", "eo", "et", "eu", "fi", "fo", "fur", "fy", "gl", "gsw", "ha", "haw", "hu", "ia", "io", "jgo", "jmc", "ka", "kaj", "kcg", "kk", "kkj", "kl", "ks", "ksb", "ku", "ky", "lb", "lg", "lij", "mas", "mgo", "ml", "mn", "mr", "nah", "nb", "nd", "ne", "nl", "nl-BE", "nn", "nnh", "no", "nr", "ny", "nyn", "om", "or", "os", "pap", "ps", "rm", "rof", "rwk", "saq", "sc", "sd", "sdh", "seh", "sn", "so", "sq", "ss", "ssy", "st", "sv", "sw", "sw-CD", "syr", "ta", "te", "teo", "tig", "tk", "tn", "tr", "ts", "ug", "ur", "uz", "ve", "vo", "vun", "wae", "xh", "xog", "yi"}],
  [h |-> "nplurals=2; plural=n > 1;",
   l |-> {"ak", "am", "as", "bho", "bn", "csw", "doi", "fa", "fa-AF", "ff", "gu", "guw", "hi", "hi-Latn", "hy", "kab", "kn", "ln", "mg", "nso", "pa", "pcm", "si", "ti", "wa", "zu"}],
  [h |-> "nplurals=2; plural=n != 1 && n != 2 && n != 3 && (n % 10 == 4 || n % 10 == 6 || n % 10 == 9);",
   l |-> {"ceb", "fil", "tl"}],
  [h |-> "nplurals=2; plural=n % 10 != 1 || n % 100 == 11;",
   l |-> {"is", "mk"}],
  [h |-> "nplurals=2; plural=n >= 2 && (n < 11 || n > 99);",
   l |-> {"tzm"}],
  [h |-> "nplurals=3; plural=(n % 10 == 1 && n % 100 != 11) ? 0 : ((n % 10 >= 2 && n % 10 <= 4 && (n % 100 < 12 || n % 100 > 14)) ? 1 : 2);",
   l |-> {"be", "bs", "hr", "ru", "sh", "sr", "sr-Latn", "sr-ME", "uk"}],
  [h |-> "nplurals=3; plural=(n == 0) ? 0 : ((n == 1) ? 1 : 2);",
   l |-> {"blo", "ksh", "lag"}],
  [h |-> "nplurals=3; plural=(n == 1) ? 0 : ((n != 0 && n % 1000000 == 0) ? 1 : 2);",
   l |-> {"ca", "es", "es-419", "es-ES", "es-MX", "it", "lld", "pt-PT", "scn", "vec"}],
  [h |-> "nplurals=3; plural=(n == 1) ? 0 : ((n >= 2 && n <= 4) ? 1 : 2);",
   l |-> {"cs", "sk"}],
  [h |-> "nplurals=3; plural=(n == 0 || n == 1) ? 0 : ((n != 0 && n % 1000000 == 0) ? 1 : 2);",
   l |-> {"fr", "fr-CA", "fr-CH", "pt", "pt-BR"}],
  [h |-> "nplurals=3; plural=(n == 1) ? 0 : ((n == 2) ? 1 : 2);",
   l |-> {"he", "iu", "naq", "sat", "se", "sma", "smi", "smj", "smn", "sms"}],
  [h |-> "nplurals=3; plural=(n % 10 == 1 && (n % 100 < 11 || n % 100 > 19)) ? 0 : ((n % 10 >= 2 && n % 10 <= 9 && (n % 100 < 11 || n % 100 > 19)) ? 1 : 2);",
   l |-> {"lt"}],
  [h |-> "nplurals=3; plural=(n % 10 == 0 || n % 100 >= 11 && n % 100 <= 19) ? 0 : ((n % 10 == 1 && n % 100 != 11) ? 1 : 2);",
   l |-> {"lv", "prg"}],
  [h |-> "nplurals=3; plural=(n == 1) ? 0 : ((n % 10 >= 2 && n % 10 <= 4 && (n % 100 < 12 || n % 100 > 14)) ? 1 : 2);",
   l |-> {"pl"}],
  [h |-> "nplurals=3; plural=(n == 1) ? 0 : ((n == 0 || n != 1 && n % 100 >= 1 && n % 100 <= 19) ? 1 : 2);",
   l |-> {"ro", "ro-MD"}],
  [h |-> "nplurals=3; plural=(n == 0 || n == 1) ? 0 : ((n >= 2 && n <= 10) ? 1 : 2);",
   l |-> {"shi"}],
  [h |-> "nplurals=4; plural=(n % 100 == 1) ? 0 : ((n % 100 == 2) ? 1 : ((n % 100 == 3 || n % 100 == 4) ? 2 : 3));",
   l |-> {"dsb", "hsb", "sl"}],
  [h |-> "nplurals=4; plural=(n == 1 || n == 11) ? 0 : ((n == 2 || n == 12) ? 1 : ((n >= 3 && n <= 10 || n >= 13 && n <= 19) ? 2 : 3));",
   l |-> {"gd"}],
  [h |-> "nplurals=4; plural=(n % 10 == 1) ? 0 : ((n % 10 == 2) ? 1 : ((n % 100 == 0 || n % 100 == 20 || n % 100 == 40 || n % 100 == 60 || n % 100 == 80) ? 2 : 3));",
   l |-> {"gv"}],
  [h |-> "nplurals=5; plural=(n % 10 == 1 && n % 100 != 11 && n % 100 != 71 && n % 100 != 91) ? 0 : ((n % 10 == 2 && n % 100 != 12 && n % 100 != 72 && n % 100 != 92) ? 1 : ((((n % 10 == 3 || n % 10 == 4) || n % 10 == 9) && (n % 100 < 10 || n % 100 > 19) && (n % 100 < 70 || n % 100 > 79) && (n % 100 < 90 || n % 100 > 99)) ? 2 : ((n != 0 && n % 1000000 == 0) ? 3 : 4)));",
   l |-> {"br"}],
  [h |-> "nplurals=5; plural=(n == 1) ? 0 : ((n == 2) ? 1 : ((n >= 3 && n <= 6) ? 2 : ((n >= 7 && n <= 10) ? 3 : 4)));",
   l |-> {"ga"}],
  [h |-> "nplurals=5; plural=(n == 1) ? 0 : ((n == 2) ? 1 : ((n == 0 || n % 100 >= 3 && n % 100 <= 10) ? 2 : ((n % 100 >= 11 && n % 100 <= 19) ? 3 : 4)));",
   l |-> {"mt"}],
  [h |-> "nplurals=6; plural=(n == 0) ? 0 : ((n == 1) ? 1 : ((n == 2) ? 2 : ((n % 100 >= 3 && n % 100 <= 10) ? 3 : ((n % 100 >= 11 && n % 100 <= 99) ? 4 : 5))));",
   l |-> {"ar", "ar-001", "ars"}],
  [h |-> "nplurals=6; plural=(n == 0) ? 0 : ((n == 1) ? 1 : ((n == 2) ? 2 : ((n == 3) ? 3 : ((n == 6) ? 4 : 5))));",
   l |-> {"cy"}],
  [h |-> "nplurals=6; plural=(n == 0) ? 0 : ((n == 1) ? 1 : (((n % 100 == 2 || n % 100 == 22 || n % 100 == 42 || n % 100 == 62 || n % 100 == 82) || n % 1000 == 0 && (n % 100000 >= 1000 && n % 100000 <= 20000 || n % 100000 == 40000 || n % 100000 == 60000 || n % 100000 == 80000) || n != 0 && n % 1000000 == 100000) ? 2 : ((n % 100 == 3 || n % 100 == 23 || n % 100 == 43 || n % 100 == 63 || n % 100 == 83) ? 3 : ((n != 1 && (n % 100 == 1 || n % 100 == 21 || n % 100 == 41 || n % 100 == 61 || n % 100 == 81)) ? 4 : 5))));",
   l |-> {"kw"}] >>

Rules == [i \in 1..Len(Table) |-> ParseHeader(Codes(Table[i].h))]
RowOf(lang) == SelectInSeq(Table, LAMBDA r : lang \in r.l)
\* A tag is described by the chain of itself and its parents, each with the base language it certainly has ("" if none).
\* Its rule is that of itself or else of its closest relative: base languages may be preferred to other parents.
FirstRow(names) == LET k == SelectInSeq(names, LAMBDA x : RowOf(x) # 0) IN IF k = 0 THEN 0 ELSE RowOf(names[k])
Mixed(chain) == FlattenSeq([i \in 1..Len(chain) |-> <<chain[i].s, chain[i].base>>])
Apart(chain) == [i \in 1..Len(chain) |-> chain[i].s] \o [i \in 1..Len(chain) |-> chain[i].base]
RowsFor(chain) == {FirstRow(Mixed(chain)), FirstRow(Apart(chain))}
English == RowOf("en")
=============================================================================
