------------------------------- MODULE MC_Hints -------------------------------
(* Undefined names near to, and not so near to, the names there are.                 *)
EXTENDS AvdlWorlds

Hinted(files) == MWorld("idl", <<>>, files, <<CFile(<<"m.avdl">>)>>) @@ [hints |-> TRUE]
(* records of the given names (namespace by annotation), then a field of a type that is nowhere *)
Decl(d, b) == DRecord(d[2], IF d[1] = "" THEN <<>> ELSE <<NsAnno(d[1], b + 1)>>, <<FField(TPrim("int", b + 10), "x", b + 20)>>, b)
Wants(ms, b) == DRecord("Holder", <<>>, [i \in 1..Len(ms) |-> FField(TRef(ms[i], b + 10 * i), "f" \o ToString(i), b + 10 * i + 5)], b)
HPlain(h, ds, ms) ==
  Hinted(<<FIdl(<<"m.avdl">>, UProto("P", IF h = "" THEN <<>> ELSE <<NsAnno(h, 1)>>,
                                     [i \in 1..Len(ds) |-> Decl(ds[i], 100 * i)] \o <<Wants(ms, 900)>>))>>)

(* every short word of two letters, next to one or two types *)
RECURSIVE WordsOf(_)
WordsOf(n) == IF n = 0 THEN {""} ELSE LET s == WordsOf(n - 1) IN s \cup {x \o c : x \in s, c \in {"a", "b"}}
NearWords(deep) == {"T" \o x : x \in WordsOf(IF deep THEN 6 ELSE 5)}
NearDecls == {<<"", "Tab">>, <<"", "Taba">>, <<"", "Tabab">>, <<"n", "Tabb">>, <<"", "Tbbbba">>, <<"k.n", "Taabb">>}
NearWorlds(deep) ==
  {HPlain(h, ds, <<m>>) : h \in {"", "n"}, m \in NearWords(deep), ds \in {<<d>> : d \in NearDecls}}
TwoNearWorlds(deep) ==
  {HPlain(h, <<x[1], x[2]>>, <<m>>) : h \in {"", "n"}, m \in {"Taba", "Tabba", "Tbabab", "Tbb", "Tabbb", "n.Tab", "q.Tabab", "k.n.Taab", "Ta", "Tababab", "T"},
                                      x \in {y \in NearDecls \X NearDecls : y[1] # y[2]}}
(* names of any length with slips: letters replaced, left out, put in or exchanged *)
LongName == "Qwertzuiopasdfghjklyxcvbnm_"
Slip(x, i, kind) ==
  CASE kind = "other" -> SubSeq(x, 1, i - 1) \o "9" \o SubSeq(x, i + 1, Len(x))
  [] kind = "gone" -> SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
  [] kind = "put" -> SubSeq(x, 1, i) \o "9" \o SubSeq(x, i + 1, Len(x))
  [] kind = "case" -> SubSeq(x, 1, i - 1) \o (IF Ch(x, i) = "w" THEN "W" ELSE "E") \o SubSeq(x, i + 1, Len(x))
  [] OTHER -> IF i = Len(x) THEN x ELSE SubSeq(x, 1, i - 1) \o Ch(x, i + 1) \o Ch(x, i) \o SubSeq(x, i + 2, Len(x))
SlipKinds == {"other", "gone", "put", "case", "exchanged"}
RECURSIVE Slips(_, _, _, _)
Slips(x, n, step, kind) == IF n = 0 THEN x ELSE IF 2 + (n - 1) * step > Len(x) THEN Slips(x, n - 1, step, kind) ELSE Slips(Slip(x, 2 + (n - 1) * step, kind), n - 1, step, kind)
LengthWorlds(deep) ==
  {HPlain(h, <<<<d, SubSeq(LongName, 1, len)>>>>, <<Join(d, Slips(SubSeq(LongName, 1, len), n, step, kind))>>) :
     h \in {"", "n"}, d \in (IF deep THEN {"", "n", "k.n"} ELSE {"", "n"}), len \in (IF deep THEN 2..26 ELSE {2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24}), n \in 1..4,
     step \in {1, 2}, kind \in SlipKinds}
(* the namespace is what is mistaken *)
SpaceWorlds(deep) ==
  {HPlain(h, <<<<d, t>>>>, <<Join(m, t)>>) : h \in {"", "org.x"}, t \in {"Order", "Tab", "A"}, d \in {"", "org", "org.x", "com.example.orders", "a"},
     m \in {"", "orf", "org.y", "com.exmaple.orders", "com.example.order", "com.example", "b", "example.orders"}}
(* built-in types misspelt *)
Misspelt == {"Int", "INT", "STRING", "String", "strin", "stringgg", "strng", "sting", "xstring", "bolean", "boolena", "Boolean", "bool", "flot", "Float",
             "flaot", "nul", "Null", "byts", "byte", "bites", "duble", "doubel", "dbl", "lon", "loong", "lnog", "it", "nt", "i", "inte", "Strings",
             "integer", "Date", "uid", "void", "decimal", "Void", "Decimal", "n.strin", "n.String", "void.x"}
BuiltinWorlds(deep) ==
  {HPlain(h, ds, <<m>>) : h \in {"", "n"}, m \in Misspelt,
                         ds \in {<<>>, <<<<"", "Strin">>>>, <<<<"", "Ints">>, <<"n", "Bool">>>>, <<<<"z", "Sting">>>>}}
(* several names at once; names that imports bring; mentions in messages *)
ManyNames == {<<"Tabx", "Qqqqqqq">>, <<"Qqqq", "Tabx">>, <<"Tabx", "Qqqqqqq", "Tabz", "Wwwwww">>, <<"Tabx", "Holde", "int_">>, <<"Zzzz", "Tab", "Taba">>, <<"q.Tab", "Tab", "n.Taba">>}
Mentioned(m) == <<DMsg("go", TRef(m, 805), <<[doc |-> <<>>, type |-> TArr(TRef(m, 811), 810), vars |-> <<FVar("p", <<>>, 820)>>]>>, <<>>, FALSE, 800)>>
JTab(n) == Obj(<<P("type", Str("record")), P("name", Str(n)), P("namespace", Str("j")), P("fields", Arr(<<>>))>>)
SeveralHints(deep) ==
  {HPlain(h, <<<<"", "Tabc">>, d>>, ms) : h \in {"", "n"}, ms \in ManyNames, d \in {<<"q", "Tabz">>, <<"n.m", "Zzz">>}}
  \cup {Hinted(<<FIdl(<<"m.avdl">>, UProto("P", IF h = "" THEN <<>> ELSE <<NsAnno(h, 1)>>,
                       <<DImport("idl", <<"a.avdl">>, 10), DImport("schema", <<"j.avsc">>, 20)>> \o
                       (IF msg THEN Mentioned(m) ELSE <<Wants(<<m>>, 900)>>))),
                 FIdl(<<"a.avdl">>, UBare(<<"a">>, <<Decl(<<"", "Tabab">>, 100)>>)), FJson(<<"j.avsc">>, JTab("Tbabb"))>>) :
          h \in {"", "n", "j"}, msg \in {TRUE, FALSE},
          m \in {"Tababb", "Tbab", "j.Tbab", "Tbabb", "a.Tabba", "Xabab", "strings", "Holder", "Tabbb"}}
=============================================================================
