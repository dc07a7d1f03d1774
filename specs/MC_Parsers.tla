----------------------------- MODULE MC_Parsers -----------------------------
(* All short documents of each format, all documents near to right ones, and  *)
(* the families of growing documents.                                         *)
EXTENDS Parsers, Emit, FiniteSets

CONSTANTS Formats

Words == {"<w00000000>", "<w00000001>", "<w00000002>", "<w0000001c>", "<w0000003c>", "<w7fffffff>", "<w80000000>", "<wffffffff>", "<wfffffff8>", "<wde120495>"}
AllAlphabets == [
  po |-> {"msgid \"a\"<nl>", "msgid \"\"<nl>", "msgstr \"b\"<nl>", "msgid_plural \"c\"<nl>", "msgstr[0] \"d\"<nl>", "msgstr[1] \"e\"<nl>", "msgctxt \"x\"<nl>",
          "\"y\"<nl>", "<nl>", "# t<nl>", "#, fuzzy<nl>", "#| msgid \"p\"<nl>", "#~ msgid \"o\"<nl>", "#: f:1<nl>", "#| \"q\"<nl>"},
  pochars |-> {"msgid", "msgstr", " ", "\"", "\\", "[", "]", "0", "-", "<nl>", "#", "|", "~", "<ff>", "<cr>", "<bom>"},
  pl |-> {"n", "0", "2", "?", ":", "(", ")", "==", "!=", "%", "&&", "||", "<lt>", "!", "-", ";", "99999999999999999999", " ", "=", "nplurals"},
  cl |-> {"n", "v", "c", " ", "=", "!=", "%", "10", "1", "..", ",", " and ", " or ", " not ", " in ", "@integer ", "@decimal", "~", "1c3", "1.5", "…"},
  js |-> {"{", "}", "[", "]", ":", ",", "\"a\"", "\"other\"", "\"one\"", "\"context\"", "\"\"", "null", "1", "\"\\ud800\"", "\""},
  mo |-> Words \cup {"a", "<nul>", "<04>"},
  mobe |-> Words \cup {"a", "<nul>", "<04>"} ]
MyAlphabets == [f \in Formats |-> AllAlphabets[f]]

T(f, ts) == [fmt |-> f, toks |-> ts]
Header == <<"msgid \"\"<nl>", "msgstr \"\"<nl>", "\"Plural-Forms: nplurals=3; plural=n%3;\\n\"<nl>", "<nl>">>
AllTemplates == {
  T("po", Header \o <<"# t<nl>", "#: f:1<nl>", "#, fuzzy<nl>", "#| msgid \"p\"<nl>", "msgctxt \"x\"<nl>", "msgid \"a\"<nl>", "msgid_plural \"c\"<nl>", "msgstr[0] \"d\"<nl>", "\"y\"<nl>", "msgstr[1] \"e\"<nl>",
                      "<nl>", "msgid \"z\"<nl>", "msgstr \"b\"<nl>">>),
  T("pochars", <<"#", "|", " ", "msgid", " ", "\"", "p", "\"", "<nl>", "msgid", " ", "\"", "a", "\\", "n", "\"", "<nl>", "msgid_plural", " ", "\"", "b", "\"", "<nl>", "msgstr", "[", "0", "]", " ", "\"", "c", "\"", "<nl>">>),
  T("pl", <<"n", "%", "10", "==", "1", "&&", "n", "!=", "11", "?", "0", ":", "(", "n", "<lt>", "2", "||", "n", ">=", "5", ")", "?", "1", ":", "2", ";">>),
  T("pl", <<"<reset>", "nplurals", "=", "2", ";", " ", "plural", "=", "n", "!=", "1", ";">>),
  T("cl", <<"n", " ", "%", " ", "100", " ", "=", " ", "2", "..", "4", ",", "9", " and ", "v", " ", "!=", " ", "0", " or ", "c", " ", "=", " ", "1", " ", "@integer ", "1", "~", "3", ",", " ", "1c3", ",", " ", "…", "@decimal", " ", "1.5">>),
  T("js", <<"{", "\"a\"", ":", "\"b\"", ",", "\"a_c\"", ":", "{", "\"context\"", ":", "\"c\"", ",", "\"one\"", ":", "\"x\"", ",", "\"other\"", ":", "\"y\"", "}", "}">>) }
  \cup { T(f, <<"<w950412de>", "<w00000000>", "<w00000002>", "<w0000001c>", "<w0000002c>", "<w00000000>", "<w0000003c>", "<w00000000>", "<w0000003c>", "<w00000001>", "<w0000003d>", "<w00000026>", "<w0000003f>", "<w00000003>", "<w00000066>",
                "<nul>", "a", "<nul>", "Plural-Forms: nplurals=2; plural=n>1;<nl>", "<nul>", "b", "<nul>", "c", "<nul>">>) : f \in {"mo", "mobe"} }
MyTemplates == { t \in AllTemplates : t.fmt \in Formats }

\* Growing documents: the part u is repeated (# in it is the number of the repetition).
G(f, p, u, s) == [fmt |-> f, pre |-> p, unit |-> u, suf |-> s, n1 |-> 20000, n2 |-> 300000]
Small(g) == [g EXCEPT !.n1 = 1000, !.n2 = 30000]
Entry == "msgid \"a\"<nl>msgstr \"b\"<nl>"
Growing == {
  G("po", "", "a", ""), G("po", "", "<nl>", ""), G("po", "", "# c<nl>", Entry), G("po", "", "#. c<nl>", Entry), G("po", "", "#: f:#<nl>", Entry), G("po", "", "#, f#<nl>", Entry),
  G("po", "", "#| msgid \"a\"<nl>", Entry), G("po", "", "#| msgctxt \"a\"<nl>", Entry), G("po", "#| msgid \"a\"<nl>", "#| \"b\"<nl>", Entry), G("po", "", "#~ msgid \"a\"<nl>", ""), G("po", "", "#~ msgid \"a#\"<nl>#~ msgstr \"b\"<nl><nl>", Entry),
  G("po", "#, ", "f#, ", "<nl>" \o Entry), G("po", "#: ", "f:# ", "<nl>" \o Entry), G("po", "# ", "c ", "<nl>" \o Entry),
  G("po", "msgid \"", "a", "\"<nl>msgstr \"b\"<nl>"), G("po", "msgid \"a\"<nl>msgstr \"", "\\n", "\"<nl>"), G("po", "msgid \"a\"<nl>msgstr \"", "\\\\", "\"<nl>"), G("po", "msgid \"a\"<nl>msgstr \"", "\\\"", "\"<nl>"),
  G("po", "msgid \"a\"<nl>", "\"b\"<nl>", "msgstr \"b\"<nl>"), G("po", "msgctxt \"a\"<nl>", "\"b\"<nl>", Entry), G("po", "msgid \"a\"<nl>msgid_plural \"b\"<nl>", "\"b\"<nl>", "msgstr[0] \"c\"<nl>"),
  G("po", "msgid \"a\"<nl>msgstr \"\"<nl>", "\"b\"<nl>", ""), G("po", "msgid \"a\"<nl>msgid_plural \"b\"<nl>msgstr[0] \"\"<nl>", "\"b\"<nl>", ""),
  G("po", "msgid \"a\"<nl>msgid_plural \"b\"<nl>", "msgstr[#] \"b\"<nl>", ""), G("po", "msgid \"\"<nl>msgstr \"\"<nl>", "\"X: b\\n\"<nl>", ""),
  G("po", "", "msgid \"a#\"<nl>msgstr \"b\"<nl><nl>", ""), G("po", "", "msgctxt \"c#\"<nl>msgid \"a\"<nl>msgstr \"b\"<nl><nl>", ""), G("po", "msgid \"a\"<nl>msgstr \"b\"", " ", "<nl>"),
  G("po", "msgid", " ", "\"a\"<nl>msgstr \"b\"<nl>"), G("po", "msgid \"a\"<nl>", "<nl>", "msgstr \"b\"<nl>"), G("po", "msgid \"a\"<nl>msgstr \"", "\\n\"<nl>\"", "\"<nl>"),
  Small(G("po", "msgid \"\"<nl>msgstr \"\"<nl>", "\"X#: b\\n\"<nl>", "")),
  G("pl", "", "(", ""), G("pl", "", "n?", ""), G("pl", "", "n?1:", "0;"), G("pl", "", "n==1 || ", "0;"), G("pl", "", " ", "n;"), G("pl", "n==", "1", ";"), G("pl", "<reset>nplurals=", "1", ";plural=0;"), G("pl", "", "n%", "3;"), G("pl", "n;", ";", ""),
  G("cl", "", "n = 1 or ", "n = 2"), G("cl", "", "n = 1 and ", "n = 2"), G("cl", "n = ", "1,", "2"), G("cl", "n = 1", " ", ""), G("cl", "n = ", "1", ""), G("cl", "n = 1 @integer ", "1,", "2"), G("cl", "n = 1 @integer 0~", "9", ""), G("cl", "n = 1 @decimal 0.0~", "9", ".0"), G("cl", "", "not ", "n = 1"), G("cl", "n = 1..", "9", ""),
  G("js", "", "[", ""), G("js", "", "{\"a\":", ""), G("js", "{\"a\":\"", "b", "\"}"), G("js", "{\"a\":\"", "\\u0041", "\"}"), G("js", "{\"a\":\"b\"", " ", "}"), G("js", "{", "\"a\":\"b\",", "\"c\":\"d\"}"), G("js", "{", "\"a#\":\"b\",", "\"c\":\"d\"}"),
  G("js", "{", "\"a#\":{\"one\":\"b\",\"other\":\"c\"},", "\"c\":\"d\"}"), G("js", "{", "\"a#_c\":{\"context\":\"c\",\"other\":\"c\"},", "\"c\":\"d\"}"), G("js", "{\"a\":{", "\"one\":\"x\",", "\"other\":\"d\"}}"), G("js", "{\"a\":{", "\"x#\":\"x\",", "\"other\":\"d\"}}"),
  G("mo", "<image>", "a#", "b"), G("mo", "<image>", "c<04>a#", "b"), G("mo", "<image>", "a#<nul>p", "b<nul>c"), G("mo", "<long>", "a", "b"), Small(G("mo", "<head>", "X#: b<nl>", "")), G("mo", "<head>", "X: b<nl>", ""), G("mo", "<forms>", "b<nul>", "") }

Init == ParsersInit
Next == Writing \/ (Len(doc) <= 2 /\ Read)
Started == muts = -1 /\ doc = <<>>
\* Documents that do not begin with anything meaningful are said once.
EmitDoc == rd = Unread =>
             /\ Emit([id |-> 0, op |-> "rb.parse", in |-> [fmt |-> fmt, toks |-> doc]])
             /\ (Started => \A g \in { h \in Growing : h.fmt = fmt } : Emit([id |-> 0, op |-> "rb.grow", in |-> g]))
=============================================================================
